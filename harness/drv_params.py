"""Drives repast4py.parameters and random.init; see specs/ParamsTrace.tla."""
import hashlib, json, os, shutil, tempfile
import yaml
import rt
from repast4py import parameters
from repast4py import random as rrandom


def canon(v):
    if isinstance(v, dict):
        return "{" + ",".join("%s:%s" % (canon(k), canon(v[k])) for k in sorted(v, key=canon)) + "}"
    if isinstance(v, list):
        return "[" + ",".join(map(canon, v)) + "]"
    return "%s %r" % (type(v).__name__, v)


def rows(d):
    return [[str(k), canon(v)] for k, v in d.items()]


def gen():
    return hashlib.sha1(json.dumps(rrandom.default_rng.bit_generator.state, sort_keys=True, default=str).encode()).hexdigest()[:12]


def handler(prog, rec, comm):
    d = tempfile.mkdtemp(prefix="par.", dir=os.environ["R4V_SCRATCH"])
    old = os.getcwd()
    try:
        os.mkdir(os.path.join(d, "out"))
        os.chdir(d)
        one(prog, rec, d)
    finally:
        os.chdir(old)
        shutil.rmtree(d)


def one(prog, rec, d):
    rec("start", seed=canon(rrandom.seed), gen=gen())
    for n, o in enumerate(prog["ops"]):
        if o["k"] == "init":
            rrandom.init(o["seed"])
            rec("init", seed=canon(o["seed"]), now=canon(rrandom.seed), gen=gen())
        elif o["k"] == "draw":
            for _ in range(o["n"]):
                rrandom.default_rng.random()
            rec("draw", gen=gen())
        elif o["k"] == "params":
            f = os.path.join(d, "p%d.yaml" % n)
            with open(f, "w") as h:
                if o["file"] or not o.get("empty"):
                    yaml.safe_dump(o["file"], h, default_flow_style=o["flow"], allow_unicode=o["uni"], sort_keys=False)
            over = "" if o["over"] is None else json.dumps(o["over"], indent=o.get("indent"), ensure_ascii=not o["uni"])
            name = None if o["dump"] is None else os.path.join("out", o["dump"]) if o.get("rel") else os.path.join(d, "out", o["dump"])
            if o.get("cli"):
                a = parameters.create_args_parser().parse_args([f] + ([over] if o["over"] is not None else []))
                ret = parameters.init_params(a.parameters_file, a.parameters, name) if name or n % 2 else \
                    parameters.init_params(a.parameters_file, a.parameters)
            else:
                ret = parameters.init_params(f, over, dump_file=name)
            ls = []
            for x in sorted(os.listdir("out")):
                with open(os.path.join("out", x)) as h:
                    ls.append([x, rows(yaml.safe_load(h) or {})])
            rec("params", file=rows(o["file"]), over=rows(o["over"] or {}), dump=int(name is not None), ret=rows(ret), glob=rows(parameters.params),
                now=canon(rrandom.seed), gen=gen(), ls=ls)


if __name__ == "__main__":
    rt.main(handler)
