"""C10: a network on one rank."""
import random
from .util import agent_ids
Z = ("NetTrace", "NInit", "NStep")


def uids(rng, m):
    ty = [rng.randrange(3) for _ in range(m)]
    return [(i, t, 0) for i, t in zip(agent_ids(rng, ty, [0] * m), ty)]


def rand_prog(rng):
    m = rng.choice([2, 3, 4, 5, 7])
    nets = [rng.random() < .5 for _ in range(rng.choice([1, 1, 2]))]
    ops = []
    hot = [(rng.randint(1, m), rng.randint(1, m)) for _ in range(rng.randint(1, 3))]

    def pair():
        if rng.random() < .6:
            u, v = rng.choice(hot)
            return (u, v) if rng.random() < .5 else (v, u)
        return rng.randint(1, m), rng.randint(1, m)

    def at():
        return [[k, rng.randint(1, 5)] for k in ("a", "b", "w") if rng.random() < .4]
    for _ in range(rng.randint(4, 30)):
        k = rng.choice(["add_edge"] * 5 + ["update_edge"] * 3 + ["remove_edge"] * 3 + ["nodes", "remove", "enter", "leave", "sync"]
                       + (["clear"] if rng.random() < .3 else []) + (["join"] if rng.random() < .5 else []))
        o = dict(k=k, i=rng.randrange(2))
        if k == "nodes":
            o["as"] = [rng.randint(1, m) for _ in range(rng.choice([1, 1, 2, 3]))]
        elif k in ("remove", "enter", "leave"):
            o["a"] = rng.randint(1, m)
        elif k in ("add_edge", "update_edge", "remove_edge"):
            o["u"], o["v"] = pair()
            if k != "remove_edge":
                # an update without attributes is no update
                o["at"] = at() or ([["a", 9]] if k == "update_edge" else [])
        ops.append(o)
        if rng.random() < .4:
            ops.append(dict(k="obs", i=rng.randrange(2)))
    return dict(uids=uids(rng, m), late=rng.random() < .3, ops=ops, cfg=dict(m=m, nets=nets))


def from_tlc(g, m):
    ops = []
    for o in g["ops"]:
        o = dict(o)
        if "as" in o:
            o["as"] = list(o["as"])
        ops += [o, dict(k="obs")]
    return dict(uids=uids(random.Random(str(ops)), m), late=False, ops=ops, cfg=dict(m=m, nets=[g["dir"]]))


def run(c):
    inv = ["GraphIsLog", "EndsAreNodes", "Counts", "Keys"]
    c.model("NetMC", c.q("NAg=2 Vals={1} Depth=4 Gen=FALSE", "NAg=2 Vals={1} Depth=5 Gen=FALSE"), invariants=inv, timeout=2500)
    c.model("NetMC", c.q("NAg=3 Vals={1} Depth=3 Gen=FALSE", "NAg=3 Vals={1} Depth=4 Gen=FALSE"), invariants=inv, timeout=2500)
    progs = []
    for m, d in ((2, 10), (3, 14)):
        k = c.q(80, 3000)
        progs += [from_tlc(g, m) for g in c.generate("NetMC", "NAg=%d Vals={1,2} Depth=%d Gen=TRUE" % (m, d), num=k, depth=d + 2, keep=k)]
    c.conform("tlc-programs", "drv_net.py", progs, *Z)
    rng = c.rng("net")
    c.conform("random", "drv_net.py", [rand_prog(rng) for _ in range(c.q(1200, 40000))], *Z)
