"""C21, C22: data sets and tabular loggers."""
from .util import merge_by
Z = ("LogTrace", "LInit", "LStep")
merge = merge_by(("meet", "write"))
PATHS = ["counts.csv", "out/counts.csv", "out/deep/er/c.csv", "plain", "out/a.b.csv", "out/x y.txt", "./dot/d.csv"]
TEXT = ["", "a", "a,b", "tab\there", "two\nlines", "\"quoted\"", "'", "ünï", ";", "|", " lead", "x" * 40, "1", "\r\n", ",,"]


def cell(rng, plain):
    k = rng.randrange(3 if plain else 7)
    return (rng.randint(-1000, 1000), rng.choice([0.5, -2.25, 1e-9, 3.0, 1e22, 0.1]), "s%d" % rng.randrange(9),
            rng.choice(TEXT), None, rng.random() < .5, rng.choice(TEXT))[k]


def one_logger(rng, kind):
    path = rng.choice(PATHS)
    q = dict(path=path, abs=rng.random() < .2, delim=rng.choice([",", ",", ";", "\t", "|"]))
    if kind == "red":
        k = rng.randint(1, 4)
        how = rng.choice(["dc", "all", "src"])
        ops = [rng.choice(["sum", "min", "max"]) for _ in range(k)]
        if how == "all":
            ops = [ops[0]] * k
        head = ["tick"] + [("v%d" % j if how == "all" or rng.random() < .5 else rng.choice(["f%d" % j, "total %d" % j])) for j in range(k)]
        d = rng.random() < .1
        q.update(types=[rng.choice(["int", "float", "i32", "f32", "i64"]) for _ in range(k)], how=how, defbuf=int(d))
        g = dict(kind="red", ops=ops, buf=1000 if d else rng.choice([1, 2, 3, 5, 7, 20, 499, 500, 501, 600]), head=head)
    else:
        g = dict(kind="tab", ops=[], buf=0, head=[rng.choice(["tick", "id", "a b", "x,y", "q\"q"]) for _ in range(rng.randint(1, 4))])
    return g, q


def rand_prog(rng, kind, maxn, long=False):
    n = 1 if maxn == 1 else rng.randint(2, maxn)
    lgs = [one_logger(rng, kind if rng.random() < .85 else rng.choice(["red", "tab"])) for _ in range(rng.choice([1, 1, 2, 3]))]
    if long:
        lgs = lgs[:1]
        if lgs[0][0]["kind"] == "red" and rng.random() < .7:
            lgs[0][0].update(buf=rng.choice([499, 500, 501, 999, 1000, 1001, 2000, 2001, 2500, 3500]))
            lgs[0][1]["defbuf"] = int(lgs[0][0]["buf"] == 1000 and rng.random() < .5)
    if len(lgs) > 1 and rng.random() < .5:      # one path asked for twice
        lgs[1][1]["path"] = lgs[0][1]["path"]
    pre = []
    for g, q in lgs:
        if rng.random() < .5:
            base = q["path"][2:] if q["path"].startswith("./") else q["path"]
            d, _, b = base.rpartition("/")
            st, dot, su = b.rpartition(".")
            if not dot:
                st, su = su, ""
            nm = lambda j: (d + "/" if d else "") + (b if j == 0 else "%s_%d%s%s" % (st, j, dot, su))  # noqa
            pre += [nm(j) for j in range(rng.choice([1, 1, 2, 3, rng.randint(9, 13)]))] if rng.random() < .7 else [nm(j) for j in range(4) if rng.random() < .5]
    for g, q in lgs:
        if q["path"].startswith("./"):
            q["path"] = q["path"][2:]
    ops, tick = [], 0
    for _ in range(rng.randint(2, 5) if long else rng.randint(2, 12)):
        i = rng.randrange(len(lgs))
        g = lgs[i][0]
        k = rng.choice(["logs"] * 5 + ["write", "write", "close", "look", "look"])
        o = dict(k=k, i=i)
        if k == "logs":
            if g["kind"] == "red":
                m = rng.choice([1, 1, 2, 3, 6]) if not long else rng.choice([1, 100, 499, 500, 501, 700, 1000, 1200, 1800])
                o["ticks"] = []
                for _ in range(m):
                    tick += rng.choice([64, 64, 32, 1, 6400])
                    o["ticks"].append(tick)
                lim = 2 ** 12 if "f32" in lgs[i][1]["types"] else 2 ** 16
                o["vals"] = [[[rng.randint(-lim, lim) for _ in g["ops"]] for _ in range(m)] for _ in range(n)]
            else:
                nc, plain = len(g["head"]), rng.random() < .4
                o["vals"] = [[[cell(rng, plain) for _ in range(nc if rng.random() < .9 else rng.randint(0, 5))]
                              for _ in range(rng.choice([0, 0, 1, 1, 2, 5]) if not long else rng.choice([0, 1, 300]))] for _ in range(n)]
        ops.append(o)
    for i in range(len(lgs)):
        if rng.random() < .8:
            ops.append(dict(k=rng.choice(["write", "close", "close"]), i=i))
    return dict(pre=sorted(set(pre)), lg=[q for _, q in lgs], ops=ops, cfg=dict(n=n, lg=[g for g, _ in lgs]))


def run(c):
    inv = ["RowsRight", "NeverAhead", "BufferBound", "WrittenAfterWrite", "TableOnce", "Alike"]
    c.model("LogMC", "R=2 Grow=2 Buf=3 Calls=6", invariants=inv, properties=["Ends"])
    c.model("LogMC", "R=3 Grow=1 Buf=2 Calls=%d" % c.q(4, 6), invariants=inv, timeout=2500)
    c.model("LogMC", "R=%d Grow=2 Buf=9 Calls=%d" % (c.q(2, 3), c.q(6, 7)), invariants=inv, timeout=2500)
    kind = "red" if c.prop == "C21" else "tab"
    rng = c.rng("log" + kind)
    for n, k in ((1, c.q(300, 6000)), (4, c.q(120, 3000)), (8, c.q(40, 1500))):
        c.conform("data sets" if kind == "red" else "tables", "drv_log.py", [rand_prog(rng, kind, n) for _ in range(k)], *Z, n=n, merge=merge)
    c.conform("long", "drv_log.py", [rand_prog(rng, kind, 2, long=True) for _ in range(c.q(12, 200))], *Z, n=2, merge=merge)
