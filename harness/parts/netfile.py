"""C13: networks written to and read from files."""
import json
from .util import merge_by

Z = ("NetFileTrace", "FInit", "FStep")
_m = merge_by(("read", "sync", "all"))


def value(rng, deep=True):
    k = rng.randrange(9 if deep else 7)
    if k == 0:
        return rng.randint(-10 ** 6, 10 ** 6)
    if k == 1:
        return rng.choice([0.1, 1e-12, 2.5e300, -0.0, 3.0, 1 / 3])
    if k == 2:
        return rng.choice(["", "x", "two words", "a  b", "}", "{", "{ }", "\"q\"", "back\\slash", "EDGES", "new\nline", "ünï", "1 2", "tab\there", "'"])
    if k == 3:
        return rng.choice([True, False])
    if k == 4:
        return None
    if k in (5, 6):
        return rng.randint(0, 9)
    if k == 7:
        return [value(rng, False) for _ in range(rng.randint(0, 3))]
    return {rng.choice(["p", "q", "r s", "}"]): value(rng, False) for _ in range(rng.randint(0, 2))}


def attrs(rng, p, plain):
    if rng.random() > p:
        return []
    names = ["age", "w", "weight", "x_1", "name"] if plain else ["age", "w", "two words", "}", "{", "é", "weight"]
    d = {n: (rng.randint(0, 99) if plain else value(rng)) for n in rng.sample(names, rng.randint(1, 3))}
    return sorted([k, json.dumps(v, sort_keys=True)] for k, v in d.items())


def rand_prog(rng, n, hand=None):
    hand = rng.random() < .4 if hand is None else hand
    p = n if n > 1 or rng.random() < .4 else rng.randint(1, 5)
    N = rng.choice([0, 1, 2, 3, 5, 8, 12, 20]) if rng.random() < .9 else rng.randint(20, 40)
    ids = rng.sample(range(0, 3 * N + 5), N)
    plain = rng.random() < .5
    pa, pe = rng.choice([0, .5, 1]), rng.choice([0, .5, 1])
    nodes = [[i, rng.choice([0, 0, 1, 4]), rng.randrange(p) if hand else -1, attrs(rng, pa, plain)] for i in ids]
    dir = rng.random() < .5
    edges, have = [], set()
    hubs = rng.sample(ids, min(N, 2)) if N else []
    if N:
        for _ in range(rng.choice([0, N // 2, N, 2 * N, 3 * N])):
            u, v = rng.choice(hubs) if rng.random() < .4 else rng.choice(ids), rng.choice(ids)
            if rng.random() < .5:
                u, v = v, u
            k = (u, v) if dir else (min(u, v), max(u, v))
            if k not in have and (u != v or rng.random() < .5):
                have.add(k)
                edges.append([u, v, attrs(rng, pe, plain)])
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        used, gone = set(), set()
        for _ in range(rng.randint(1, 6)):
            if not N:
                break
            if rng.random() < .2:
                u = rng.choice(ids)
                if not any(u in e for e in used):
                    ops.append(dict(k="del", u=u))
                    gone.add(u)
                continue
            if edges and rng.random() < .6:
                u, v, _w = rng.choice(edges)
                if rng.random() < .5 and not dir:
                    u, v = v, u
            else:
                u, v = rng.choice(ids), rng.choice(ids)
            k = (u, v) if dir else (min(u, v), max(u, v))
            if k in used or u in gone or v in gone:
                continue
            used.add(k)
            o = dict(k=rng.choice(["set", "cut"]), u=u, v=v, side=rng.randrange(2))
            if o["k"] == "set":
                o["w"] = attrs(rng, 1, True)
            ops.append(o)
        ops.append(dict(k="sync"))
    how = rng.randrange(5)
    return dict(hand=hand, twice=rng.choice([0, 0, 1, p]), sep=rng.choice([" ", " ", "  "]), js=rng.choice([[", ", ": "], [",", ":"], [" , ", " : "]]),
                empty=rng.random() < .2, rng=how, type0=rng.random() < .3, seed=rng.randrange(1 << 30), ops=ops,
                cfg=dict(n=n, p=p, dir=dir, name=rng.choice(["net", "friend_network", "a-b", "0"]), nodes=nodes, edges=edges, metis=how == 4))


def merge(p, ranks):
    return _m(p, ranks)


def run(c):
    kw = dict(invariants=["Whole", "AllEdges", "OneGhost"], timeout=2500)
    c.model("NetFileMC", "N=3 P=2 MaxEdges=2 Dup=TRUE", properties=["Reads"], **kw)
    c.model("NetFileMC", "N=3 P=3 MaxEdges=2 Dup=FALSE", **kw)
    if c.thorough:
        c.model("NetFileMC", "N=4 P=2 MaxEdges=2 Dup=TRUE", **kw)
        c.model("NetFileMC", "N=3 P=3 MaxEdges=3 Dup=FALSE", **kw)
        c.model("NetFileMC", "N=5 P=3 MaxEdges=1 Dup=FALSE", **kw)
    rng = c.rng("netfile")
    for n, k in ((1, c.q(300, 6000)), (4, c.q(90, 3000)), (8, c.q(40, 1500))):
        progs = [rand_prog(rng, n if n == 1 else rng.randint(2, n)) for _ in range(k)]
        c.conform("write and read", "drv_netfile.py", progs, *Z, n=n, merge=merge)
