"""C26: parameters, seeds and the reproducibility of runs."""
from . import sched, ctx, netfile

WORDS = ["a", "b.c", "random.seed", "world width", "on", "1", "x_y", "tau", "Ünï", "null"]


def value(rng, depth=0):
    k = rng.randrange(12 if depth < 2 else 9)
    if k < 2:
        return rng.choice([0, 1, -1, 7, 1 << 40, rng.randrange(-1000, 1000)])
    if k < 4:
        return rng.choice([0.0, 1.5, -2.25, 1e300, 1e-9, rng.random(), 3.0, 1e22])
    if k < 7:
        return rng.choice(["", "x", "yes", "1e3", "0x10", "null", "a: b", "- q", "é\n ü", "~", "012", "1:30", "'", '"', "{}", "2020-01-01", " lead", "#c"])
    if k == 7:
        return rng.random() < .5
    if k == 8:
        return None
    if k < 11:
        return [value(rng, depth + 1) for _ in range(rng.randrange(4))]
    return {rng.choice(WORDS): value(rng, depth + 1) for _ in range(rng.randrange(4))}


def dic(rng, seeds, p):
    d = {k: value(rng) for k in rng.sample([w for w in WORDS if w != "random.seed"], rng.randrange(6))}
    if rng.random() < p:
        d["random.seed"] = rng.choice(seeds)
    items = list(d.items())
    rng.shuffle(items)
    return dict(items)


def rand_prog(rng):
    seeds = rng.sample([0, 1, 2, 42, 123456, (1 << 31) - 1, 1 << 32, rng.randrange(1 << 30)], 3)
    ops = []
    for _ in range(rng.randint(2, 9)):
        x = rng.random()
        if x < .15:
            ops.append(dict(k="init", seed=rng.choice(seeds)))
        elif x < .3:
            ops.append(dict(k="draw", n=rng.randint(1, 4)))
        else:
            ops.append(dict(k="params", file=dic(rng, seeds, .4) if rng.random() < .85 else {}, over=None if rng.random() < .15 else dic(rng, seeds, .3),
                            flow=rng.random() < .3, uni=rng.random() < .5, empty=rng.random() < .5, cli=rng.random() < .3, rel=rng.random() < .4,
                            indent=rng.choice([None, 2]), dump=rng.choice([None, "p.yaml", "p.yaml", "q", "p_1.yaml", "a.b.yml"])))
    return dict(cfg={}, ops=ops)


def from_tlc(progs, rng):
    out = []
    for p in progs:
        ops = []
        for o in p:
            o = dict(o)
            if o["k"] == "params":
                o["file"], o["over"] = (x if isinstance(x, dict) else {} for x in (o["file"], o["over"]))
                o.update(flow=rng.random() < .5, uni=True, dump="d.yaml" if o["dump"] else None, empty=rng.random() < .5)
            ops.append(o)
        out.append(dict(cfg={}, ops=ops))
    return out


def model(rng, n):
    nd = rng.choice([1, 2, 2])
    ops = [(0, 0, 0, 0, "place", 1), (1, 1, 1, 0, "sync", 0)]
    for _ in range(rng.randint(5, 14)):
        k = rng.choice(["place", "pt", "walk", "walk", "shuffle", "shuffle", "near", "near", "link", "graph", "layer", "slayer", "part", "part", "state", "sync"])
        pt = 1 if k in ("sync", "slayer") else rng.choice([0, 1, 2, 2, 2, 3])
        ops.append((rng.randint(0, 4), rng.choice([0, 0, 1, 2]), pt, rng.randint(0, 2), k, rng.randrange(1000)))
    if rng.random() < .3:
        ops.append((2, 0, 2, 0, "init", rng.randrange(1 << 20)))
    return dict(kind="model", single=rng.random() < .4, thr=rng.choice([1, 3, 50]), cfg=dict(n=n), seed=rng.randrange(1 << 30), by=rng.choice(["init", "params"]), over=rng.choice([None, 1]),
                ext=[max(3 * n, rng.randint(6, 16)) for _ in range(nd)], na=rng.choice([2, 5, 9, 14, 30]), ops=ops, stop=rng.randint(3, 6))


def merge(p, ranks):
    h = len(ranks) // 2
    runs = {}
    for r, ev in enumerate(ranks):
        j = None
        for e in ev:
            if e["k"] == "run":
                j = e["j"]
            else:
                runs.setdefault((j, r % h), []).append(e)
    out = []
    for j in (1, 2, 3):
        out.append(dict(k="run", j=j))
        for r in range(h):
            out += runs.get((j, r), [])
    return out + [dict(k="end")]


def run(c):
    inv = dict(invariants=["Same", "Override", "SeedOfParams"], properties=["Kept"])
    c.model("ParamsMC", 'Keys={"a"} Vals={0,1} Seeds={1,2} Len0=2 Gen=FALSE', **inv)
    if c.thorough:
        c.model("ParamsMC", 'Keys={"a"} Vals={0,1} Seeds={1,2} Len0=3 Gen=FALSE', timeout=2500, **inv)
    rng = c.rng("params")
    g = c.generate("ParamsMC", 'Keys={"a","b"} Vals={0,1} Seeds={1,2} Len0=7 Gen=TRUE', num=c.q(150, 2000), depth=9, keep=c.q(150, 2000))
    c.conform("parameters", "drv_params.py", [rand_prog(rng) for _ in range(c.q(1000, 20000))] + from_tlc(g, rng), "ParamsTrace", "PInit", "PStep")
    tw = [dict(R4V_TWIN="0", PYTHONHASHSEED="1"), dict(R4V_TWIN="1", PYTHONHASHSEED="4242")]
    z = ("RunTrace", "RInit", "RStep")
    sp = [dict(sched.rand_prog(rng), kind="sched", cfg=dict(n=1)) for _ in range(c.q(300, 8000))]
    c.conform("runs on one rank", "drv_run.py", [model(rng, 1) for _ in range(c.q(90, 3000))] + sp, *z, merge=merge, twins=tw)
    for n, k in ((2, c.q(24, 800)), (4, c.q(32, 1000))):
        ps = [model(rng, n) for _ in range(k)]
        ps += [dict(ctx.rand_prog(rng, n, f), kind="ctx") for f in (ctx.ALL, ctx.CKALL, ctx.QSP) for _ in range(c.q(8, 300))]
        c.conform("runs on %d ranks" % n, "drv_run.py", ps, *z, n=n, merge=merge, twins=tw)
