"""Runs the program of a recorded violation again: prints its history and the verdict."""
import json
from . import build as B, launch, tlc


def again(rep):
    if not rep.get("driver") or not rep.get("program"):
        print("nothing to run again for this violation")
        return 2
    src = B.build()
    import importlib, check
    part = importlib.import_module("harness.parts." + check.PARTS[rep["property"]])
    kw = dict(n=rep["ranks"], any_rc=True)
    if rep.get("twins"):
        r = launch.twins(rep["driver"], [rep["program"]], src, rep["twins"], **kw)[0]
    else:
        r = launch.run(rep["driver"], [rep["program"]], src, extra_env=rep.get("env"), **kw)[0]
    merge = getattr(part, "merge", None)
    ranks = [(x["ev"] if x else []) for x in r["ranks"]]
    ev = merge(rep["program"], ranks) if rep.get("merged") else list(ranks[0])
    if r["fail"]:
        ev.append({"k": "crash", "what": r["fail"]})
    for k, e in enumerate(ev):
        print("%4d %s" % (k + 1, json.dumps(e)))
    if r["err"]:
        print(r["err"][-3000:])
    init, step = rep["steps"] if rep.get("steps") else (None, None)
    if init is None:
        return 1 if r["fail"] else 0
    bads, _ = tlc.validate(rep["trace"], init, step, [dict(id=0, cfg=rep["program"].get("cfg", {}), ev=ev)], consts=rep.get("consts", ""))
    for k, i, cl in bads:
        print("event %d: %s" % (i, cl))
    mine = [x for _, _, cl in bads for x in cl if x.partition(":")[0] == "*" or rep["property"] in x.partition(":")[0].split(",")]
    print("the property is violated again" if mine else "no violation this time")
    return 1 if mine else 0
