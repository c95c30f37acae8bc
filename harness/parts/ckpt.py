"""C23: schedules restored from checkpoints."""
from . import sched
from .sched import ev
from .util import merge_by

merge = merge_by(set())


def enrich(p, rng):
    """a program of the schedule -> one with checkpoints"""
    ops = p["ops"]
    grid = p.get("grid", 64)
    ids = [o["op"]["id"] for o in ops if o["op"]["k"] == "sched"]
    ats = [o["op"]["at"] for o in ops if o["op"]["k"] in ("sched", "stop")]
    hi = max(ats + [1])
    ops.append(dict(by=0, occ=0, op={"k": "stop", "id": 940, "at": hi + 3 * 64 + 3}))
    kind = rng.choice(["half", "half", "half", "last", "step", "end"])
    used = set(ats)
    post = {}
    slots = []
    if kind == "last":
        for o in ops:
            if o["op"].get("pt") == 1:
                o["op"]["pt"] = 0
        t = rng.choice(ats)
        ops.insert(rng.randint(0, len(ops)), dict(by=0, occ=0, op=ev(700, max(t, 0), 1)))
        slots = [0]
    elif kind == "half":
        for j in range(rng.choice([1, 1, 2])):
            t = max(rng.choice(ats), 0) + 1
            while t in used:
                t += 1
            used.add(t)
            ops.insert(rng.randint(0, len(ops)), dict(by=0, occ=0, op=ev(700 + j, t, rng.choice([0, 1, 2, 3]))))
            slots.append(j)
    elif kind == "end":
        ops.append(dict(by=0, occ=0, op={"k": "end", "id": 980}))
        slots = [10]
    else:
        slots = [0]
    nid = 500
    for j in slots:
        if j < 10 and kind != "step" and rng.random() < .4:     # operations right after the checkpoint
            t = [o["op"]["at"] for o in ops if o["op"].get("id") == 700 + j][0]
            for _ in range(rng.randint(1, 2)):
                at = t + rng.choice([0, 1, 2, 64])
                while at != t and at in [x["op"]["at"] for x in ops if 700 <= x["op"].get("id", 0) < 800]:
                    at += 1         # never at the tick of another checkpoint
                if kind == "last" and at == t:
                    at += 1
                o = dict(by=700 + j, occ=1, op=ev(nid, at, rng.choice([0, 2, 3]), 1, 0))
                if rng.random() < .3 and ids:
                    o["op"] = {"k": "void", "id": rng.choice(ids)}
                nid += 1
                ops.append(o)
                post.setdefault(j, []).append(o["op"])
    tags = {}
    if rng.random() < .4:
        for i in ids + [o["op"]["id"] for o in ops if o["op"]["k"] == "end" and o["op"]["id"] < 980]:
            tags[str(i)] = rng.choice([0, 0, 1, 2])
    all_tags = [0, 1, 2] if tags else [0]
    rest = []
    for j in slots * rng.choice([1, 2]):
        rest.append(one(rng, j, all_tags, ids, post.get(j, []), hi, no=len(rest)))
    return dict({k: p[k] for k in ("sc", "off") if k in p}, cfg=dict(n=1), ops=[ops], seed=p["seed"], tags=tags, restores=rest,
                draw=[i for i in ids if rng.random() < .3],
                steps=rng.randint(1, 6) if kind == "step" else 0, how=rng.choice(["file", "file", "live"]))


def one(rng, j, all_tags, ids, post, hi, n=1, no=0, stops=True):
    full = rng.random() < .6
    t = list(all_tags)
    rng.shuffle(t)
    o = dict(j=j, tags=t, ign=[], stops=True, ops=[list(post) for _ in range(n)], cmp=True, mid=[],
             how=rng.choice(["execute", "execute", "step"]) if n == 1 else "execute")
    if not full:
        w = rng.choice((["stops"] * 2 if stops else []) + ["tags", "ign", "mid"])
        if w == "tags":
            o["tags"] = t[:rng.randint(1, len(t))]
        if w == "ign":
            o["ign"] = rng.sample(ids, min(len(ids), rng.randint(1, 3)))
        if w == "stops":
            o["stops"] = False
        if w == "mid":
            o["mid"] = [ev(600 + 10 * no + i, rng.choice([0, 0, 64]) + hi // 2, rng.choice([0, 1, 2, 3]), 1, 0) for i in range(rng.randint(1, 4))]
            for x in o["ops"]:
                x += [ev(650 + 10 * no + i, rng.choice([0, 0, 64]) + hi // 2, rng.choice([0, 1, 2, 3]), 1, 0) for i in range(rng.randint(0, 4))]
            o["cmp"] = False
        if not o["stops"] or 0 not in o["tags"]:      # a run needs an end
            at = rng.choice([hi + 3, hi + 192, hi + 128])
            for x in o["ops"]:
                x.append({"k": "stop", "id": 941, "at": at})
            o["cmp"] = False
    return o


def shared(rng, maxr):
    from .sharedsched import rand_prog
    n = rng.randint(2, maxr)
    p = rand_prog(rng, n)
    n = p["cfg"]["ranks"]
    ats = [o["op"]["at"] for r in p["ops"] for o in r if "at" in o["op"]]
    hi = max(ats)
    t = max(rng.choice(ats), 0) + 1
    while t in ats:
        t += 1
    ids = sorted({o["op"]["id"] for r in p["ops"] for o in r if o["op"]["k"] == "sched" and o["op"]["id"] < 700})
    for r in p["ops"]:
        r.append(dict(by=0, occ=0, op=ev(700, t, rng.choice([0, 1, 2]))))
        r.append(dict(by=0, occ=0, op={"k": "stop", "id": 940, "at": hi + 77}))
    tags = {str(i): rng.choice([0, 0, 1]) for i in ids} if rng.random() < .4 else {}
    return dict({k: p[k] for k in ("sc", "off") if k in p}, cfg=dict(n=n), ops=p["ops"], seed=p["seed"], tags=tags, how="file", steps=0,
                draw=[i for i in ids if rng.random() < .3],
                restores=[one(rng, 0, [0, 1] if tags else [0], ids, [], hi, n, k,
                              not any(o["op"].get("id") == 800 for r in p["ops"] for o in r)) for k in range(rng.choice([1, 2]))])


def run(c):
    inv = dict(spec="CSpec", invariants=["TypeOk", "OncePerTick", "Cadence", "OrderInTick", "FutureKept", "ImplOk"], properties=["VoidedStay"])
    b = "Gen=FALSE NSave=1 NRestore=1"
    c.model("CkptMC", "NEv=2 NOps=1 Ats={0,1} Pts={0,1,2,3} Prs={1,2} Ivs={0,1} Horizon=2 " + b, **inv)
    if c.thorough:
        c.model("CkptMC", "NEv=3 NOps=1 Ats={0,1} Pts={1,2} Prs={1} Ivs={0,1} Horizon=2 " + b, timeout=2500, **inv)
        c.model("CkptMC", "NEv=2 NOps=2 Ats={0,1,2} Pts={0,1,2,3} Prs={1,2} Ivs={0,1} Horizon=3 Gen=FALSE NSave=2 NRestore=2", timeout=2500, **inv)
    rng = c.rng("ckpt")
    g = c.generate("SchedMC", "NEv=5 NOps=2 Ats={0,1,2,3} Pts={0,1,2,3} Prs={1,2,3} Ivs={0,1,2} Horizon=4 Gen=TRUE",
                   num=c.q(500, 10000), depth=40)
    z = ("CkptTrace", "KInit", "GStep")
    c.conform("tlc-programs", "drv_ckpt.py", [enrich(p, rng) for p in sched.from_tlc(g, rng, 4)], *z)
    c.conform("random programs", "drv_ckpt.py", [enrich(sched.rand_prog(rng), rng) for _ in range(c.q(1300, 30000))], *z)
    for n, k in ((3, c.q(150, 2500)), (5, c.q(40, 600))):
        c.conform("shared schedules", "drv_ckpt.py", [shared(rng, n) for _ in range(k)], *z, n=n, merge=merge, stall=25)
