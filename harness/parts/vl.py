"""C18-C20: value layers."""
from .topo import _ppd
from .util import merge_by

merge = merge_by(("ready", "coherent", "swap", "sync", "nosync"))


def pack(progs):
    """programs of one layer, as programs of a context with layers"""
    return [dict(layers=[{k: v for k, v in p.items() if k != "ops"}], ops=p["ops"], cfg=dict(n=p["cfg"]["n"], ls=[p["cfg"]])) for p in progs]


def several(rng, kinds, maxn):
    """a context with two or three layers, their operations interleaved"""
    n = rng.randint(2, maxn) if maxn > 1 else 1
    ps = [rand_prog(rng, rng.choice(kinds), n, fixed=True) for _ in range(rng.choice([2, 2, 3]))]
    ops = []
    todo = [[dict(o, y=y) for o in p["ops"] if o["k"] != "sync"] for y, p in enumerate(ps)]
    while any(todo):
        y = rng.choice([i for i, t in enumerate(todo) if t])
        m = rng.randint(1, 6)
        ops += todo[y][:m]
        del todo[y][:m]
        if rng.random() < .25:
            ops.append(dict(k="sync", how=rng.choice([0, 0, 0, 1, 2])))
            ops.append(dict(k="obs", max=30))
    ops += [dict(k="sync"), dict(k="obs", max=30)]
    return dict(layers=[{k: v for k, v in p.items() if k != "ops"} for p in ps], ops=ops, cfg=dict(n=n, ls=[p["cfg"] for p in ps]))


def rand_prog(rng, kind, maxn=1, fixed=False):
    n = maxn if fixed else rng.randint(1 if rng.random() < .1 else 2, maxn) if maxn > 1 else 1
    nd = rng.choice([1, 2, 3]) if kind == "plain" else rng.choice([1, 2, 2])
    ppd = _ppd(n, nd)
    buf = rng.choice([0, 1, 1, 2, 2, 3])
    part = [max(buf, 1) + rng.choice([0, 0, 1, 2, 4]) for _ in range(nd)]
    if nd == 3:
        part = [min(x, 4) for x in part]
    ext = [ppd[d] * part[d] + rng.randrange(ppd[d]) for d in range(nd)]
    rnd = rng.random() < .2
    ops = []
    for _ in range(rng.randint(2, 6)):
        for _ in range(rng.randint(0, 8) * n):
            k = rng.choice(["set", "set", "get", "nghs"])
            ops.append(dict(k=k, r=rng.randrange(n), how=rng.choice([0, 1, 2]), v=rng.randint(1, 10 ** 6)))
        if kind == "rw" and rng.random() < .6:
            ops.append(dict(k="swap"))
        if kind != "plain" and rng.random() < .8:
            ops.append(dict(k="sync", how=rng.choice([0] * 8 + [1, 2])))
        ops.append(dict(k="obs", max=60 if n < 3 else 24))
    dt = rng.choice(["f64", "f64", "f32"] if rnd else ["f64", "f64", "i64", "i32"])
    return dict(kind=kind, buf=buf, random=rnd, dtype=dt, voff=1 << 40 if dt[1:] == "64" and not rnd and rng.random() < .5 else 0,
                shift=rng.choice([0, 0, 0, 1 << 33, -(1 << 40)]),
                seed=rng.randrange(1 << 30), ops=ops,
                cfg=dict(n=n, dims=nd, lo=[rng.choice([0, 0, -3, 5, -ext[d]]) for d in range(nd)], ext=ext, per=rng.random() < .6,
                         b=buf if n > 1 else 0, rw=kind == "rw", init=rng.choice([0, 7, -2])))


def from_tlc(progs, n, dims, ext, b, per, rng):
    out = []
    for ops in progs:
        kind = "rw" if any(o["k"] == "swap" for o in ops) else rng.choice(["shared", "rw"])
        os_ = []
        for o in ops:
            os_.append(dict(o))
            if o["k"] != "set":
                os_.append(dict(k="obs", max=200))
        os_.append(dict(k="obs", max=200))
        out.append(dict(kind=kind, buf=b, random=False, dtype="f64", seed=rng.randrange(1 << 30), ops=os_,
                        cfg=dict(n=n, dims=dims, lo=[-1, 2][:dims], ext=ext, per=per, b=b if n > 1 else 0, rw=kind == "rw", init=0)))
    return out


Z = ("VLTrace", "MInit", "MStep")


def plain(c, k):
    rng = c.rng("plain")
    c.conform("value-layer", "drv_vl.py", pack([rand_prog(rng, "plain") for _ in range(k)]), *Z, merge=merge)
    c.conform("shared, one rank", "drv_vl.py", pack([rand_prog(rng, rng.choice(["shared", "rw"])) for _ in range(k // 4)]), *Z, merge=merge)


def run(c):
    inv = dict(invariants=["Isolated", "Covered", "NghsSeen"], properties=["OwnKept", "BuffersTrue", "OneCell"])
    if c.thorough or c.prop != "C18":
        c.model("VLMC", c.q("P1=2 P2=1 E1=2 E2=2 B=1 Per=TRUE Vals={1} Depth=3 Gen=FALSE", "P1=2 P2=1 E1=4 E2=2 B=1 Per=TRUE Vals={1} Depth=4 Gen=FALSE"), timeout=2500, **inv)
    c.model("VLMC", c.q("P1=2 P2=1 E1=3 E2=0 B=1 Per=TRUE Vals={1,2} Depth=4 Gen=FALSE", "P1=3 P2=1 E1=5 E2=0 B=1 Per=TRUE Vals={1,2} Depth=5 Gen=FALSE"), timeout=2500, **inv)
    if c.thorough or c.prop == "C19":
        c.model("VLMC", c.q("P1=2 P2=2 E1=2 E2=3 B=1 Per=FALSE Vals={1} Depth=3 Gen=FALSE", "P1=2 P2=2 E1=4 E2=3 B=1 Per=FALSE Vals={1} Depth=4 Gen=FALSE"), timeout=2500, **inv)
    rng = c.rng("vl")
    progs = []
    for n, dims, P, ext, b, per in ((2, 2, (2, 1), [4, 3], 1, True), (4, 2, (2, 2), [5, 4], 2, False), (3, 1, (3, 1), [7], 2, True),
                                    (4, 2, (2, 2), [4, 4], 2, True), (3, 2, (3, 1), [3, 2], 1, True)):
        cons = "P1=%d P2=%d E1=%d E2=%d B=%d Per=%s Vals={1,2,3} Depth=%d Gen=TRUE" % (
            P + (ext[0], ext[1] if dims > 1 else 0, b, str(per).upper(), 10))
        if c.prop == "C18" and not c.thorough and n != 3:
            continue
        k = c.q(10, 300)
        g = c.generate("VLMC", cons, num=k, depth=12, keep=k)
        progs += from_tlc(g, n, dims, ext, b, per, rng)
    c.conform("tlc-programs", "drv_vl.py", pack(progs), *Z, n=4, merge=merge)
    if c.prop == "C18":
        plain(c, c.q(320, 8000))
    elif c.prop == "C19":
        for n, k in ((4, c.q(70, 1500)), (12, c.q(40, 900))):
            c.conform("shared", "drv_vl.py", pack([rand_prog(rng, "shared", n) for _ in range(k - k // 4)]) + [several(rng, ["shared", "shared", "rw"], n) for _ in range(k // 6)], *Z, n=n, merge=merge)
    else:
        for n, k in ((1, c.q(100, 2000)), (6, c.q(60, 1500))):
            c.conform("read-write", "drv_vl.py", pack([rand_prog(rng, "rw", n) for _ in range(k - k // 4)]) + [several(rng, ["shared", "rw", "rw"], n) for _ in range(k // 6)], *Z, n=n, merge=merge)
    if c.prop != "C18" and c.thorough:
        plain(c, 800)
