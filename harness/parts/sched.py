"""C01-C03: the schedule of one rank."""

MC = dict(invariants=["TypeOk", "OncePerTick", "Cadence", "NothingLost", "OrderInTick"],
          properties=["VoidedNeverRuns", "StopHolds"])


def ev(id, at, pt=2, pr=0, iv=0):
    return {"k": "sched", "id": id, "at": at, "pt": pt, "pr": pr, "iv": iv}


def scale(rng, p):
    """The unit and the origin of the ticks: also ticks that are very close together, or far away."""
    if rng.random() < .35:
        p["sc"], p["off"] = rng.choice([(44, 0), (44, 1), (50, 1), (40, 1000), (20, 1 << 20), (-10, 0), (0, 0)])
    return p


def from_tlc(progs, rng, horizon):
    """A stop is needed: TLC programs run up to the horizon."""
    out = []
    for p in progs:
        ops = []
        u, b = rng.choice([(64, 0), (64, 0), (16, 0), (7, 0), (64, 6400000)])
        for o in p:
            q = dict(o["op"])
            if q["k"] == "sched":
                q["at"] = q["at"] * u + b
                q["iv"] *= u
            ops.append(dict(by=o["by"], occ=o["occ"], op=q))
        n0 = sum(1 for o in ops if o["by"] == 0)
        ops.insert(rng.randint(0, n0), dict(by=0, occ=0, op={"k": "stop", "id": 900, "at": horizon * u + b}))
        out.append(scale(rng, dict(mode="runner", ops=ops, seed=rng.randrange(1 << 20))))
    return out


def rand_prog(rng, direct=False):
    n = rng.randint(3, 22)
    ops = []
    grid = rng.choice([2, 8, 16, 32, 64, 64, 128, 5])      # of 1/64
    hz = grid * rng.choice([2, 3, 4, 8, 20])
    steps = rng.randint(2, 14)
    nid = 0
    pend = []
    first0 = []
    for k in range(n):
        nid += 1
        by = 0 if (k < 3 or rng.random() < .4) else rng.randint(1, nid - 1)
        occ = (rng.randrange(steps) if direct else 0) if by == 0 else rng.choice([1, 1, 1, 2, 3])
        pt = rng.choice([0, 1, 2, 2, 3, 3])
        iv = rng.choice([0, 0, 0, grid, grid * 2, grid * 3])
        at = rng.randint(0, hz // grid) * grid
        if by and rng.random() < .5:      # aim at the tick of the scheduling event
            p = pend[by - 1]
            at = p["at"] + p["iv"] * (occ - 1) + rng.choice([0, 0, 0, grid, -grid])
        if rng.random() < .05:
            at = -grid
        o = ev(nid, at, pt, rng.choice([-1, 0, 1, 1, 2]) if pt == 3 else 0, iv)
        pend.append(o)
        if by == 0 and pt == 0:
            first0.append(nid)
        ops.append(dict(by=by, occ=occ, op=o))
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        by = rng.randint(1, nid) if rng.random() < .85 else 0
        tgt = by if rng.random() < .25 and by else rng.randint(1, nid)
        ops.append(dict(by=by, occ=(rng.randrange(steps) if direct else 0) if by == 0 else rng.choice([1, 1, 2, 3]),
                        op={"k": "void", "id": tgt}))
    if direct:
        return scale(rng, dict(mode="direct", ops=ops, steps=steps, seed=rng.randrange(1 << 20)))
    sid = 900
    for _ in range(rng.choice([1, 1, 2])):
        ops.insert(rng.randint(0, len(ops)), dict(by=0, occ=0, op={"k": "stop", "id": sid, "at": rng.choice([rng.randint(1, hz), hz])}))
        sid += 1
    if rng.random() < .3:
        ops.append(dict(by=rng.randint(1, nid), occ=rng.choice([1, 2]), op={"k": "stopnow"}))
    if rng.random() < .2:
        ops.append(dict(by=rng.randint(1, nid), occ=1, op={"k": "stop", "id": sid, "at": rng.randint(0, hz)}))
        sid += 1
    if rng.random() < .25 and first0:     # void a stop: only where it cannot already have run
        by = rng.choice(first0)
        ops.append(dict(by=by, occ=1, op={"k": "void", "id": 900}))
        ops.append(dict(by=0, occ=0, op={"k": "stop", "id": sid, "at": hz + 640}))
    for e in range(rng.choice([0, 1, 1, 3])):
        by = 0 if rng.random() < .7 else rng.randint(1, nid)
        ops.append(dict(by=by, occ=0 if by == 0 else 1, op={"k": "end", "id": 950 + e}))
        if rng.random() < .15:
            ops.append(dict(by=rng.randint(1, nid), occ=1, op={"k": "void", "id": 950 + e}))
    return scale(rng, dict(mode="runner", ops=ops, seed=rng.randrange(1 << 20)))


def orders_progs(rng, num, seeds):
    T = 64
    out = []
    fixed = [
        [(0, ev(1, T, 3, 1)), (0, ev(2, T, 3, 2)), (0, ev(3, T)), (0, ev(4, T))],
        [(0, ev(1, T)), (0, ev(2, T)), (0, ev(3, T)), (0, ev(4, T, 0)), (0, ev(5, T, 1))],
        [(0, ev(1, T, 3, 1)), (0, ev(2, T)), (1, ev(3, T)), (0, ev(4, T, 3, 3))],
        [(0, ev(1, T, 0)), (1, ev(2, T, 3, 0)), (0, ev(3, T, 3, 1)), (0, ev(4, T)), (0, ev(5, T))],
        [(0, ev(1, T, 0)), (1, ev(2, T)), (0, ev(3, T)), (0, ev(4, T)), (0, ev(5, T, 1))],
        [(0, ev(1, T, 3, 1)), (0, ev(2, T, 3, 1)), (0, ev(3, T, 3, 0)), (0, ev(4, T))],
        [(0, ev(1, T, 1)), (1, ev(2, T)), (1, ev(3, T, 3, 5)), (1, ev(4, T, 0)), (0, ev(5, T, 1))],
    ]
    for f in fixed:
        out.append(f)
    while len(out) < num:
        n = rng.randint(3, 6)
        f, r = [], 0
        for i in range(1, n + 1):
            pt = rng.choice([0, 1, 2, 2, 3, 3])
            if pt == 2:
                r += 1
                if r > 3:
                    pt = 3
            by = 0 if i <= 2 or rng.random() < .6 else rng.randint(1, i - 1)
            f.append((by, ev(i, T, pt, rng.randint(0, 2) if pt == 3 else 0)))
        out.append(f)
    return [dict(mode="orders", seed=rng.randrange(1 << 20), seeds=seeds,
                 ops=[dict(by=b, occ=0 if b == 0 else 1, op=o) for b, o in f]) for f in out]


def run(c):
    c.model("SchedMC", c.q("NEv=3 NOps=1 Ats={0,1} Pts={0,1,2,3} Prs={1,2} Ivs={0,1} Horizon=2 Gen=FALSE",
                           "NEv=3 NOps=2 Ats={0,1,2} Pts={0,1,2,3} Prs={1,2} Ivs={0,1} Horizon=3 Gen=FALSE"), timeout=2400, **MC)
    rng = c.rng("sched")
    g = c.generate("SchedMC", "NEv=5 NOps=2 Ats={0,1,2,3} Pts={0,1,2,3} Prs={1,2,3} Ivs={0,1,2} Horizon=4 Gen=TRUE",
                   num=c.q(1200, 30000), depth=40)
    a = ("drv_sched.py",)
    z = ("SchedTrace", "SInit", "SStep")
    c.conform("tlc-programs", *a, from_tlc(g, rng, 4), *z)
    c.conform("nested-programs", *a, [rand_prog(rng) for _ in range(c.q(2500, 40000))], *z)
    c.conform("stepwise-programs", *a, [rand_prog(rng, True) for _ in range(c.q(1200, 20000))], *z)
    c.conform("orders-over-seeds", *a, orders_progs(rng, c.q(24, 120), 2500), *z)
