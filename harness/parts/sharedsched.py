"""C04: lockstep of the shared schedule over ranks."""
from .sched import ev, scale


def rand_prog(rng, maxr):
    n = rng.randint(2, maxr) if rng.random() < .9 else 1
    grid = rng.choice([3, 16, 32, 64])
    T = rng.randint(2, 14) * grid
    how = rng.choice(["init", "init", "event", "stopnow", "late"])
    ops = []
    for r in range(n):
        o = []
        nid = 0
        k = rng.choice([0, 0, 1, 2, 4, 8])       # some ranks have nothing at all
        ids = []
        for _ in range(k):
            nid += 1
            by = 0 if nid < 2 or rng.random() < .6 else rng.choice(ids)
            at = rng.randint(0, T // grid + 2) * grid
            if by and rng.random() < .5:
                b = [x for x in o if x["op"].get("id") == by][0]["op"]
                at = b["at"] + rng.choice([0, grid, grid, 2 * grid, -grid])
            ids.append(nid)
            pt = rng.choice([0, 1, 2, 2, 3])
            o.append(dict(by=by, occ=0 if by == 0 else rng.choice([1, 1, 2]),
                          op=ev(nid, at, pt, rng.randint(0, 2) if pt == 3 else 0, rng.choice([0, 0, 0, grid, 2 * grid, 3 * grid]))))
        if ids and rng.random() < .25:
            o.append(dict(by=rng.choice(ids), occ=1, op={"k": "void", "id": rng.choice(ids)}))
        stop = {"k": "stop", "id": 900, "at": T}
        if how == "init":
            o.insert(rng.choice([0, len(o)]), dict(by=0, occ=0, op=stop))
        elif how == "event":     # scheduled while running, at a later tick
            o.insert(rng.randint(0, len(o)), dict(by=0, occ=0, op=ev(800, grid * rng.randint(0, T // grid - 1), rng.choice([0, 1, 2]))))
            o.append(dict(by=800, occ=1, op=stop))
        elif how == "late":      # scheduled at the stop tick itself
            o.insert(rng.randint(0, len(o)), dict(by=0, occ=0, op=ev(800, T, rng.choice([0, 1, 2]))))
            o.append(dict(by=800, occ=1, op=stop))
        else:
            o.insert(rng.randint(0, len(o)), dict(by=0, occ=0, op=ev(800, T, rng.choice([0, 1, 2]))))
            o.append(dict(by=800, occ=1, op={"k": "stopnow"}))
        for e in range(rng.choice([0, 1, 2])):
            o.append(dict(by=0, occ=0, op={"k": "end", "id": 950 + e}))
        ops.append(o)
    return scale(rng, dict(cfg=dict(ranks=n), ops=ops, seed=rng.randrange(1 << 20),
                           slow=[rng.choice([0, 0, .5]) for _ in range(n)]))


def merge(p, ranks):
    ev = [e for r in ranks for e in r]
    ev.sort(key=lambda e: e["c"])
    for e in ev:
        e.pop("c")
    return ev


def run(c):
    inv = dict(invariants=["TicksOrdered", "NothingAfterStop", "AllBeforeStopRan"], properties=["Lockstep", "Termination"])
    c.model("SharedSchedMC", "Ranks=2 NEv=3 Ats={0,1,2,3} StopAt=2", **inv)
    c.model("SharedSchedMC", c.q("Ranks=3 NEv=2 Ats={0,1,2} StopAt=2", "Ranks=3 NEv=4 Ats={0,1,2,3} StopAt=2"), timeout=2500, **inv)
    rng = c.rng("ss")
    for n, k in ((2, c.q(240, 3000)), (4, c.q(320, 4000)), (7, c.q(40, 600))):
        c.conform("lockstep", "drv_shared_sched.py", [rand_prog(rng, n) for _ in range(k)],
                  "SharedSchedTrace", "SSInit", "SSStep", n=n, merge=merge, stall=25)
    for n, k in ((2, 2), (3, 1)):
        for _ in range(c.q(k, 4 * k)):
            p = dict(cfg=dict(ranks=n), seed=rng.randrange(1 << 20), ops=[[] for _ in range(n)])
            for r in rng.sample(range(n), rng.randint(1, n - 1)):
                p["ops"][r] = [dict(by=0, occ=0, op=ev(i + 1, rng.randint(0, 30))) for i in range(4)]
                p["ops"][r].append(dict(by=0, occ=0, op={"k": "stop", "id": 900, "at": 32}))
            c.conform("rank without events", "drv_empty_rank.py", [p], "SharedSchedTrace", "SSInit", "SSStep", n=n,
                      merge=merge, stall=15, any_rc=True)
