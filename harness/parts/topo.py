"""C17: how the ranks share a space."""


def rand_prog(rng, maxn, big=False):
    n = rng.randint(1, maxn)
    nd = rng.choice([1, 2, 2, 3, 3])
    # extents at least the number of ranks, so that every rank has a part whatever the arrangement
    ext = [rng.randint(n, 3 * n + 3) if nd < 3 else rng.randint(max(2, min(n, 6)), 9) for _ in range(nd)]
    if nd == 3 and n > 6:
        ext = [max(e, n if d == 0 else 4) for d, e in enumerate(ext)]
    if big:
        ext = [rng.choice([10 ** 4, 10 ** 6, 999983, 10 ** 8]) + rng.randrange(20) for _ in range(nd)]
    lo = [rng.choice([0, 0, -5, 7, -ext[d] // 2]) for d in range(nd)]
    per = rng.random() < .6
    return dict(cfg=dict(n=n, dims=nd, lo=lo, ext=ext, per=per, sends=not big), buf=0, spaces=rng.random() < .4, shift=rng.choice([0, 0, 1 << 30, -(1 << 31)]))


def dims_create(n, nd):
    """a lower bound of any rank's extent needs the most processes a dimension can get"""
    return [n] + [n] * (nd - 1)


def fit(rng, p):
    """a buffer no larger than any rank's extent"""
    c = p["cfg"]
    small = min(c["ext"][d] // _ppd(c["n"], c["dims"])[d] for d in range(c["dims"]))
    p["buf"] = rng.choice([b for b in (0, 1, 1, 2, 2, 3, small) if b <= small] or [0])
    return p


def _ppd(n, nd):
    """balanced factorization, largest first (MPI_Dims_create)"""
    best = None

    def rec(n, k, top, acc):
        nonlocal best
        if k == 1:
            if n <= top:
                a = acc + [n]
                key = (a[0] - a[-1], a)
                if best is None or key < best[0]:
                    best = (key, a)
            return
        for f in range(min(n, top), 0, -1):
            if n % f == 0:
                rec(n // f, k - 1, f, acc + [f])
    rec(n, nd, n, [])
    return best[1]


def merge(p, ranks):
    return [e for r in ranks for e in r] + [{"k": "end"}]


def run(c):
    inv = dict(invariants=["TilesExactly", "CellsOnce", "NeverTooMuch", "BuffersFilled"])
    c.model("TopoMC", c.q("MaxP=3 MaxExt=6 MaxB=2 MaxDims=2", "MaxP=4 MaxExt=9 MaxB=3 MaxDims=2"), timeout=2500, **inv)
    c.model("TopoMC", c.q("MaxP=2 MaxExt=3 MaxB=1 MaxDims=3", "MaxP=3 MaxExt=4 MaxB=2 MaxDims=3"), timeout=2500, **inv)
    rng = c.rng("topo")
    z = ("TopoTrace", "TopInit", "TopStep")
    every = [fit(rng, dict(cfg=dict(n=n, dims=nd, per=per, sends=True, lo=[rng.choice([0, -4, 6])] * nd,
                                    ext=[e + rng.randrange(3) for e in ([3 * n] * nd if nd < 3 else [2 * n, n + 2, 6])]), buf=0, spaces=True, shift=rng.choice([0, 0, 0, 1 << 30, -(1 << 31)])))
             for n in range(1, 13) for nd in (1, 2, 3) for per in (False, True)]
    c.conform("every size", "drv_topo.py", every, *z, n=12, merge=merge, stall=60)
    c.conform("random", "drv_topo.py", [fit(rng, rand_prog(rng, 12)) for _ in range(c.q(250, 4000))], *z, n=12, merge=merge, stall=60)
    c.conform("large extents", "drv_topo.py", [rand_prog(rng, 12, True) for _ in range(c.q(60, 1000))], *z, n=12, merge=merge, stall=60)
    if c.thorough:
        c.conform("many ranks", "drv_topo.py", [fit(rng, rand_prog(rng, 27)) for _ in range(400)], *z, n=27, merge=merge, stall=120)
