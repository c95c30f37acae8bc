#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  |  check.py replay <file>"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from harness import build as B
from harness.framework import Check

PARTS = {**{"C%02d" % k: "ctx" for k in (5, 6, 7, 8, 9, 11, 12, 24, 25)},
         "C18": "vl", "C19": "vl", "C20": "vl",
         "C10": "net", "C21": "log", "C22": "log", "C13": "netfile",
         "C17": "topo", "C23": "ckpt", "C26": "params",
         "C14": "space", "C15": "space", "C16": "space",
         "C04": "sharedsched",
         "C01": "sched", "C02": "sched", "C03": "sched"}


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        c = Check(prop, tier, seed)
    except B.BuildError as e:
        print("the working tree does not build:\n" + str(e))
        return 2
    part = importlib.import_module("harness.parts." + PARTS[prop])
    part.run(c)
    return c.finish()


def replay(path):
    """Run the program of a violation again and validate it."""
    from harness.replay import again
    return again(json.load(open(path)))


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
