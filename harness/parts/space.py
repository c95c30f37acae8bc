"""C14-C16: one rank's grid or continuous space."""
from .util import agent_ids
from .ctx import shift
U = 32
MC = dict(invariants=["TypeOk", "BorderOk", "Agree", "BoxesPartition"], properties=["OthersUntouched"])


def cfg(rng, kind=None, dims=None, small=False):
    kind = kind or rng.choice(["grid", "cspace"])
    u = 1 if kind == "grid" else U
    dims = dims or rng.choice([1, 2, 2, 3])
    lo, hi = [0, 0, 0], [0, 0, 0]
    for d in range(dims):
        e = rng.choice([1, 2, 3, 4, 5] if small else [1, 2, 4, 7, 10, 16])
        lo[d] = rng.choice([0, 0, 0, -3, 5, -e]) * u
        hi[d] = lo[d] + e * u
    n = rng.randint(2, 5) if small else rng.randint(3, 24)
    return dict(kind=kind, per=rng.choice(["sticky", "periodic"]), occ=rng.choice(["multi", "multi", "single"]), lo=lo, hi=hi,
                shared=rng.random() < .6, thr=rng.choice([1, 1, 2, 3, 5, 100]), types=[rng.randrange(3) for _ in range(n)])


def named(rng, p):
    ty = p["cfg"]["types"]
    p["born"] = [rng.choice([0, 0, 1, 2]) for _ in ty]
    p["shift"] = shift(rng, [p["cfg"]])
    p["ids"] = agent_ids(rng, ty, p["born"])
    return p


def point(rng, c, used=None, inb=.75):
    p = []
    if used and rng.random() < .3:
        return list(rng.choice(used))
    step = 1 if c["kind"] == "grid" else 4
    for d in range(3):
        lo, hi = c["lo"][d], c["hi"][d]
        if lo == hi:
            p.append(0 if rng.random() < .9 else rng.choice([-1, 3]) * step)
            continue
        if rng.random() < inb:
            x = rng.randrange(lo, hi, step)
            if rng.random() < .5:      # whole units: more coincidences
                x = x // U * U if c["kind"] != "grid" else x
                x = max(x, lo)
        else:
            e = hi - lo
            x = rng.choice([lo - step, hi, hi + step, lo - e, hi + e, rng.randrange(lo - 3 * e, hi + 3 * e, step)])
        p.append(x)
    used is not None and used.append(p)
    return p


def box(rng, c):
    lo, hi = [0, 0, 0], [0, 0, 0]
    for d in range(3):
        a, b = c["lo"][d] // U, c["hi"][d] // U
        if a == b:
            continue
        x = rng.randint(a - 1, b)
        y = rng.randint(x + 1, b + 1)
        if rng.random() < .1:
            x, y = a, b
        lo[d], hi[d] = x * U, max(y, x + 1) * U     # an extent of 0 means an unused dimension
    return dict(k="within", lo=lo, hi=hi)


def rand_prog(rng, kind=None, box_every=0, steps=None, dims=None):
    c = cfg(rng, kind, dims)
    n = len(c["types"])
    ops, used = [], []
    for a in range(1, n + 1):
        if rng.random() < .8:
            ops.append(dict(k="add", a=a))
    for _ in range(steps or rng.randint(10, 60)):
        r = rng.random()
        a = rng.randint(1, n)
        if r < .08:
            ops.append(dict(k="add", a=a))
        elif r < .16:
            ops.append(dict(k="rm", a=a))
        elif c["shared"] and r < .18:
            ops.append(dict(k="rnd"))
        else:
            ops.append(dict(k="move", a=a, p=point(rng, c, used)))
            if box_every and rng.random() < 1 / box_every:
                ops += [box(rng, c) for _ in range(2)]
    return named(rng, dict(cfg=c, ops=ops, every=1 if n < 8 else 4))


def border_prog(rng):
    c = cfg(rng)
    c["occ"] = "multi"
    if c["kind"] == "cspace" and rng.random() < .4:
        big = rng.choice([1, 1000, 10 ** 6, 3 * 10 ** 8, 10 ** 9])
        for d in range(3):
            if c["hi"][d] > c["lo"][d]:
                c["lo"][d] = rng.choice([0, -big, big]) * U
                c["hi"][d] = c["lo"][d] + big * U
    c["thr"] = 100
    u = 1 if c["kind"] == "grid" else U
    pts = []
    for _ in range(12):
        p = []
        for d in range(3):
            lo, hi = c["lo"][d] // u, c["hi"][d] // u
            if c["kind"] == "grid":
                e = max(hi - lo, 1)
                x = rng.choice([lo, hi - 1, hi, lo - 1, rng.randint(lo - 5 * e, hi + 5 * e), rng.randint(-10 ** 9, 10 ** 9)])
            else:
                e = max(hi - lo, 1)
                x = rng.choice([lo - 1e-20, lo - 1e-9, hi - 1e-9, hi + 1e-9, lo + 0.3 - 0.1 - 0.1 - 0.1, float(lo), float(hi),
                                rng.uniform(lo, hi), rng.uniform(lo - 3 * e, hi + 3 * e), lo - e * 5.5, hi - 1e-15, lo + e * 4.0])
            p.append(x)
        pts.append(p)
    return dict(mode="border", cfg=c, pts=pts)


def from_tlc(progs, rng):
    out = []
    for p in progs:
        c = dict(p["cfg"], shared=rng.random() < .5, thr=rng.choice([1, 2, 100]), types=[0, 1, 2][:3])
        ops = [dict(o) for o in p["ops"]]
        if rng.random() < .5:
            c["kind"] = "cspace"
            c["lo"] = [x * U for x in c["lo"]]
            c["hi"] = [x * U for x in c["hi"]]
            for o in ops:
                if "p" in o:
                    o["p"] = [x * U for x in o["p"]]
            ops = [y for o in ops for y in ([o, dict(k="within", lo=[-U, 0, 0], hi=[U, 2 * U, 0])] if o["k"] == "move" else [o])]
        out.append(named(rng, dict(cfg=c, ops=ops)))
    return out


def run(c):
    c.model("SpaceMC", c.q("NAg=2 NegX=1 SizeX=2 SizeY=2 Below=1 Above=1 Depth=5 Gen=FALSE",
                           "NAg=3 NegX=1 SizeX=2 SizeY=2 Below=1 Above=1 Depth=6 Gen=FALSE"), timeout=2500, **MC)
    rng = c.rng("space")
    z = ("SpaceTrace", "PInit", "PStep")
    g = c.generate("SpaceMC", "NAg=3 NegX=1 SizeX=3 SizeY=2 Below=1 Above=0 Depth=12 Gen=TRUE",
                   num=c.q(200, 10000), depth=14, keep=c.q(1200, 30000))
    c.conform("tlc-programs", "drv_space.py", from_tlc(g, rng), *z)
    p = c.prop
    c.conform("grid", "drv_space.py", [rand_prog(rng, "grid") for _ in range(c.q(600 if p != "C16" else 40, 12000))], *z)
    c.conform("cspace", "drv_space.py", [rand_prog(rng, "cspace", 3) for _ in range(c.q(600, 12000))], *z)
    if p == "C16":
        c.conform("boxes", "drv_space.py", [rand_prog(rng, "cspace", 1, 80, rng.choice([1, 2, 2, 3])) for _ in range(c.q(500, 8000))], *z)
    if p == "C15":
        c.conform("border-values", "drv_space.py", [border_prog(rng) for _ in range(c.q(800, 20000))], *z)
