"""C05-C09, C11, C12, C25: contexts, spaces and networks over several ranks."""
from .util import merge_by, agent_ids
from .topo import _ppd

U = 32
merge = merge_by(("ready", "sync", "nsync", "request", "mva", "proj", "save", "restore"))
Z = ("CtxTrace", "CInit", "CStep")


def rand_space(rng, n, f):
    kind = rng.choice(f.get("kinds", ["grid", "grid", "cspace"]))
    nd = rng.choice(f.get("nd", [1, 2, 2, 3]))
    ppd = _ppd(n, nd)
    b = rng.choice(f.get("buf", [0, 1, 1, 2, 2, 3]))
    ext = [ppd[d] * (max(b, 1) + rng.choice([0, 0, 1, 2, 4])) + rng.randrange(ppd[d]) for d in range(nd)]
    lo = [rng.choice([0, 0, -3, 5, -ext[d]]) for d in range(nd)]
    u = 1 if kind == "grid" else U
    pad = [0] * (3 - nd)
    return dict(kind=kind, per=rng.choice(["sticky", "periodic"]), occ="single" if f.get("single") else "multi",
                lo=[x * u for x in lo] + pad, hi=[(a + e) * u for a, e in zip(lo, ext)] + pad, b=b * u)


def twin(rng, g):
    """a space of the other kind with the same ranks at the same points"""
    k = "cspace" if g["kind"] == "grid" else "grid"
    a, z = (1, U) if g["kind"] == "grid" else (U, 1)
    f = lambda q: [x // a * z for x in q]       # noqa
    return dict(g, kind=k, lo=f(g["lo"]), hi=f(g["hi"]), b=g["b"] // a * z)


def rand_pt(rng, g, near=None):
    p = []
    for d in range(3):
        lo, hi = g["lo"][d], g["hi"][d]
        if hi == lo:
            p.append(0)
            continue
        st = 1 if g["kind"] == "grid" else 4
        x = rng.randrange(lo, hi, st)
        if near is not None and rng.random() < .6:
            x = near[d] + rng.choice([-2, -1, -1, 0, 1, 1, 2]) * (U if st == 4 else 1)
        elif rng.random() < .1:
            x = rng.choice([lo - st, hi, hi - st, lo, hi + 3 * st])
        p.append(x)
    return p


def shift(rng, sp):
    """origins far away; not so far that a double cannot tell the positions of a continuous space"""
    if rng.random() < .6:
        return [0, 0, 0]
    k = [1 << 40, -(1 << 33), 1 << 31] if all(g["kind"] == "grid" for g in sp) else [1 << 20, -(1 << 17)]
    return [rng.choice(k + [0]) for _ in range(3)]


def rand_prog(rng, N, f):
    n = rng.randint(2, N) if N > 1 and rng.random() < .95 else 1
    sp, nets, order = [], [], []
    if f.get("spaces"):
        sp.append(rand_space(rng, n, f))
        if f["spaces"] > 1 and rng.random() < .9:
            sp.append(twin(rng, sp[0]))
    for _ in range(rng.choice(f.get("nets", [0]))):
        nets.append(dict(dir=rng.random() < .5))
    order = [["s", i] for i in range(len(sp))] + [["n", i] for i in range(len(nets))]
    rng.shuffle(order)
    late = [o for o in order if rng.random() < f.get("late", 0)]
    m = rng.randint(2, f.get("m", 8))
    born = [rng.randrange(n) for _ in range(m)]
    ty = [rng.randint(0, 2) for _ in range(m)]
    ops, val = [], [0]
    last, pairs = {}, []

    def v():
        val[0] += 1
        return val[0]

    def move(u):
        g = sp[0]
        p = rand_pt(rng, g, last.get(u))
        last[u] = p
        both = len(sp) > 1
        if both:        # integer points, so that the spaces agree on the rank
            a = 1 if g["kind"] == "grid" else U
            p = [x // a for x in p]
            last[u] = [x * a for x in p]
            # keep inside: the border rules of a grid and of a continuous space clip differently
            if g["per"] == "sticky":
                p = [min(max(x, g["lo"][d] // a), max(g["hi"][d] // a - 1, g["lo"][d] // a)) for d, x in enumerate(p)]
            ops.append(dict(k="move", u=u, i=[0, 1], p=p, g=1))
        else:
            ops.append(dict(k="move", u=u, i=[0], p=p))

    alive = [u for u in range(1, m + 1) if rng.random() < .75] or [1]
    todo = [u for u in range(1, m + 1) if u not in alive]
    for u in alive:
        ops.append(dict(k="add", u=u, v=v()))
        if sp and rng.random() < .85:
            move(u)
    if nets and rng.random() < .8:
        ops.append(dict(k="sync"))
        if "request" in f["ops"]:
            ops.append(dict(k="request", q=[[rng.randrange(n), rng.choice(alive)] for _ in range(rng.randint(1, 2 * n))]))
    pend_late = list(late)
    saved = []

    def restore(slot):
        ops.append(dict(k="restore", slot=slot, seed=rng.randrange(1 << 30), early=rng.random() < .7))
        if rng.random() < .8:
            ops.extend([dict(k="sync"), dict(k="obs")])

    for ep in range(rng.randint(2, f.get("epochs", 6))):
        side = {}
        for _ in range(rng.randint(0, f.get("steps", 8))):
            k = rng.choice(f["ops"])
            u = rng.randint(1, m)
            if k == "add":
                if todo:
                    x = todo.pop()
                    alive.append(x)
                    ops.append(dict(k="add", u=x, v=v()))
                    if sp and rng.random() < .8:
                        move(x)
            elif k == "rem":
                if len(alive) > 1 and rng.random() < .6:
                    x = alive.pop(rng.randrange(len(alive)))
                    ops.append(dict(k="rem", u=x))
            elif k == "set":
                ops.append(dict(k="set", u=u, v=v()))
            elif k == "move":
                if sp:
                    move(rng.choice(alive))
            elif k in ("edge", "upd", "del") and nets:
                i = rng.randrange(len(nets))
                u, x = rng.choice(alive), rng.choice(alive)
                if k != "edge" and pairs and rng.random() < .8:
                    i, u, x = rng.choice(pairs)
                    if rng.random() < .2:
                        u, x = x, u
                if x == u:
                    continue
                pairs.append((i, u, x))
                a, b = min(u, x), max(u, x)
                s = side.setdefault((i, a, b), rng.randint(0, 1))     # one rank changes this pair before the next synchronization
                sd = s if u == a else 1 - s
                for _ in range(3 if k == "edge" and rng.random() < .1 else 1):
                    ops.append(dict(k=k, i=i, u=u, v=x, side=sd, w=[rng.choice([0, v()]), rng.choice([0, 0, v()])]))
            elif k == "clear" and nets and rng.random() < .3:
                ops.append(dict(k="clear", i=rng.randrange(len(nets)), r=rng.randrange(n)))
            elif k == "request":
                ops.append(dict(k="request", q=[[rng.randrange(n), rng.randint(1, m)] for _ in range(rng.randint(1, 5))]))
                if rng.random() < .5:
                    ops.append(dict(k="obs"))
        if pend_late and rng.random() < .7:
            t, i = pend_late.pop()
            ops.append(dict(k="proj", t=t, i=i))
        if rng.random() < .2:
            ops.append(dict(k="obs"))
        if f.get("mva") and rng.random() < f["mva"]:
            us = rng.sample(range(1, m + 1), rng.randint(1, min(4, m)))
            ops.append(dict(k="mva", m=[[u, rng.randrange(n)] for u in us]))
        elif f.get("nsync") and rng.random() < f["nsync"]:
            ops.append(dict(k="nsync"))
        else:
            ops.append(dict(k="sync"))
        ops.append(dict(k="obs", q=1 if f.get("query") else 0))
        if rng.random() < f.get("ck", 0):
            for _ in range(rng.choice([0, 0, 0, 1, 3, 6])):      # changes no synchronization has shared yet
                k = rng.choice(["set", "move", "add", "edge"])
                if k == "set":
                    ops.append(dict(k="set", u=rng.randint(1, m), v=v()))
                elif k == "move" and sp:
                    move(rng.choice(alive))
                elif k == "add" and todo:
                    alive.append(todo.pop())
                    ops.append(dict(k="add", u=alive[-1], v=v()))
                elif k == "edge" and nets:
                    u, x = rng.choice(alive), rng.choice(alive)
                    if x != u:
                        ops.append(dict(k="edge", i=rng.randrange(len(nets)), u=u, v=x, side=0, w=[rng.choice([0, v()]), v()]))
            slot = len(saved) + 1
            saved.append(slot)
            ops.append(dict(k="save", slot=slot, seed=rng.randrange(1 << 30), file=rng.random() < .6, by_type=rng.random() < .3))
            if rng.random() < .3:
                restore(slot)
            elif rng.random() < .3:
                ops += [dict(k="sync"), dict(k="obs")]
        elif saved and rng.random() < f.get("ck", 0):
            restore(rng.choice(saved))
    if saved:
        restore(rng.choice(saved))
    ops += [dict(k="sync"), dict(k="obs")]
    return dict(order=order, late=late, seed=rng.randrange(1 << 30), ops=ops, cache=rng.random() < f.get("cache", .5), thr=rng.choice([1, 2, 100]),
                ids=agent_ids(rng, ty, born), shift=shift(rng, sp), cfg=dict(n=n, ty=ty, born=born, sp=sp, nets=nets, late=[i + 1 for t, i in late if t == "n"]))


SPACE = dict(spaces=1, ops=["add", "rem", "set", "move", "move", "move"])
SPACE2 = dict(spaces=2, ops=["add", "rem", "set", "move", "move", "move"])
SINGLE = dict(spaces=1, single=True, ops=["add", "rem", "set", "move", "move", "move"], kinds=["grid", "grid", "cspace"])
REQ = dict(ops=["add", "rem", "set", "request"], mva=.4, query=True)
SPMV = dict(spaces=2, mva=.4, nsync=.1, ops=["add", "rem", "set", "move", "move", "request"])
SPREQ = dict(spaces=1, ops=["add", "rem", "set", "move", "move", "request"])
NET = dict(nets=[1, 1, 2], ops=["add", "set", "request", "edge", "edge", "edge", "upd", "upd", "del"])
NETREM = dict(nets=[1, 2], ops=["add", "set", "rem", "request", "edge", "edge", "edge", "upd", "upd", "del", "clear"])
NETMV = dict(nets=[1, 1, 2], mva=.5, ops=["add", "set", "request", "edge", "edge", "edge", "upd", "upd", "del"])
NETSP = dict(spaces=1, nets=[1, 1, 2], ops=["add", "set", "move", "move", "edge", "edge", "edge", "upd", "upd", "del"])
ALL = dict(spaces=2, nets=[0, 1, 2], mva=.2, late=.2, ops=["add", "set", "rem", "move", "move", "request", "edge", "edge", "edge", "upd", "upd", "del", "clear"])
NOSYNC = dict(spaces=1, nsync=.4, ops=["add", "set", "move", "move"])


def from_tlc(progs, n, ext, b, per, net, na, rng):
    out = []
    for ops in progs:
        born = [0] * na
        os_ = []
        for o in ops:
            o = dict(o)
            if o["k"] == "add":
                born[o["u"] - 1] = o.pop("r")
            os_.append(o)
            if o["k"] in ("sync", "nsync", "mva", "request", "restore"):
                os_.append(dict(k="obs", q=1))
        os_ += [dict(k="sync"), dict(k="obs", q=1)]
        kind = rng.choice(["grid", "cspace"])
        u = 1 if kind == "grid" else U
        for o in os_:
            if o["k"] == "move":
                o["p"] = [x * u for x in o["p"]]
        sp = [dict(kind=kind, per=per, occ="multi", lo=[0, 0, 0], hi=[ext * u, 0, 0], b=b * u)] if ext else []
        nets = [dict(dir=net == "directed")] if net != "none" else []
        order = [["s", i] for i in range(len(sp))] + [["n", i] for i in range(len(nets))]
        rng.shuffle(order)
        out.append(dict(order=order, late=[], seed=rng.randrange(1 << 30), ops=os_, cache=rng.random() < .5, thr=rng.choice([1, 100]),
                        shift=shift(rng, sp), ids=agent_ids(rng, [x % 2 for x in range(1, na + 1)], born),
                        cfg=dict(n=n, ty=[x % 2 for x in range(1, na + 1)], born=born, sp=sp, nets=nets, late=[])))
    return out


INV = ["Population", "Locations", "Buffers", "Graph", "Ghosts", "Gone", "Order", "Same"]


def mdl(c, quick, deep):
    """NR NA Ext B Per Net Ops Depth"""
    for nr, na, ext, b, per, net, ops, depth in ([quick, deep] if c.thorough else [quick]):
        c.model("CtxMC", 'NR=%d NA=%d Ext=%d B=%d Per="%s" Net="%s" Ops={%s} Depth=%d Gen=FALSE' % (
            nr, na, ext, b, per, net, ",".join('"%s"' % o for o in ops.split()), depth), invariants=INV, properties=["Quiet"], timeout=2500)


def gen(c, k, *shapes):
    rng = c.rng("gen")
    out = []
    for nr, na, ext, b, per, net, ops, depth in shapes:
        g = c.generate("CtxMC", 'NR=%d NA=%d Ext=%d B=%d Per="%s" Net="%s" Ops={%s} Depth=%d Gen=TRUE' % (
            nr, na, ext, b, per, net, ",".join('"%s"' % o for o in ops.split()), depth), num=k, depth=depth + 2, keep=k)
        out += from_tlc(g, nr, ext, b, per, net, na, rng)
    return out


M_SPACE = ((2, 2, 4, 1, "periodic", "none", "add rem set move request", 5), (3, 2, 6, 1, "periodic", "none", "add rem move nsync", 6))
M_STICKY = ((2, 2, 4, 1, "sticky", "none", "add rem move nsync", 5), (3, 2, 6, 2, "sticky", "none", "add rem move mva", 6))
M_BUF = ((3, 2, 3, 1, "periodic", "none", "add rem move", 5), (3, 3, 6, 2, "periodic", "none", "add move set", 6))
M_POP = ((2, 2, 4, 0, "periodic", "none", "add rem set move mva", 5), (2, 3, 4, 1, "periodic", "none", "add rem set move mva nsync", 6))
M_REQ = ((2, 2, 0, 0, "sticky", "none", "add rem set request mva", 7), (3, 2, 0, 0, "sticky", "undirected", "add rem set request mva edge del", 7))
M_NET = ((2, 2, 0, 0, "sticky", "directed", "add edge upd del request", 7), (2, 3, 0, 0, "sticky", "undirected", "add rem edge upd del request", 7))
M_MOVE = ((2, 2, 0, 0, "sticky", "undirected", "add edge upd request mva", 7), (2, 3, 0, 0, "sticky", "directed", "add edge del request mva", 7))
M_LINK = ((2, 2, 4, 1, "sticky", "directed", "add move edge del", 6), (2, 3, 4, 1, "periodic", "undirected", "add move edge upd", 7))
M_REM = ((2, 2, 0, 0, "sticky", "undirected", "add rem edge request mva", 7), (2, 2, 4, 1, "periodic", "directed", "add rem move edge request", 7))

M_CK = ((2, 2, 0, 0, "sticky", "undirected", "add rem set edge del save restore", 6), (2, 3, 4, 1, "periodic", "directed", "add set move edge mva save restore", 7))

G_CK = (3, 4, 6, 1, "periodic", "none", "add rem set move request mva save restore", 26)
G_CKN = (3, 4, 6, 1, "sticky", "undirected", "add rem set move edge upd del save restore", 28)
G_SPACE = (4, 5, 12, 2, "periodic", "none", "add rem set move request mva nsync", 24)
G_NET = (3, 4, 0, 0, "sticky", "undirected", "add rem set edge upd del request mva", 26)
G_ALL = (3, 4, 6, 1, "sticky", "directed", "add set move edge upd del request mva", 26)

# property -> (model, programs from TLC, [(family, ranks, quick, thorough)])
PLAN = {
    "C05": (M_POP, (G_SPACE, G_ALL), [("SPMV", 4, 110, 2500), ("SPMV", 8, 60, 1500), ("REQ", 4, 60, 1000), ("NETMV", 4, 60, 1500), ("NOSYNC", 4, 60, 1500), ("ALL", 6, 60, 3000)]),
    "C06": (M_STICKY, (G_SPACE,), [("SPACE", 4, 120, 2500), ("SPACE2", 8, 80, 1500), ("SPMV", 4, 90, 2000), ("NOSYNC", 4, 80, 2000), ("SINGLE", 4, 50, 1000), ("NETSP", 4, 40, 1000), ("SPACE", 12, 40, 600)]),
    "C07": (M_BUF, (G_SPACE,), [("SPACE", 4, 140, 3000), ("SPACE", 8, 90, 1500), ("SPACE2", 6, 80, 1500), ("SPREQ", 4, 70, 1500), ("SINGLE", 4, 50, 1000), ("ALL", 4, 50, 1500), ("SPACE", 12, 50, 800)]),
    "C08": (M_REQ, (G_NET, G_ALL), [("REQ", 4, 90, 2000), ("SPREQ", 6, 90, 1500), ("NETMV", 4, 70, 1500), ("NETREM", 4, 60, 1500), ("SPMV", 4, 60, 1500), ("ALL", 6, 80, 3000)]),
    "C09": (M_REM, (G_NET, G_SPACE), [("NETREM", 4, 120, 2500), ("REMMV", 4, 100, 2000), ("SPREM", 6, 90, 2000), ("REQ", 4, 60, 1000), ("ALL", 6, 80, 3000)]),
    "C11": (M_NET, (G_NET,), [("NET", 2, 100, 2000), ("NET", 4, 120, 2500), ("NETREM", 4, 100, 2000), ("NETSP", 4, 80, 1500), ("NETMV", 6, 70, 1500)]),
    "C12": (M_MOVE, (G_NET, G_ALL), [("NETMV", 4, 120, 2500), ("NETSP", 4, 110, 2000), ("NETMV", 8, 60, 1500), ("ALL", 4, 80, 3000)]),
    "C24": (M_CK, (G_CK, G_CKN), [("CKSP", 4, 110, 2000), ("CKNET", 4, 120, 2000), ("CKALL", 4, 80, 1500), ("CKALL", 6, 50, 1500), ("CKNET", 2, 60, 1000)]),
    "C25": (M_POP, (G_SPACE,), [("REQ", 4, 120, 2500), ("QSP", 4, 110, 2000), ("QALL", 6, 90, 2000), ("REQ", 1, 60, 1000)]),
}
CKSP = dict(SPMV, ck=.6)
CKNET = dict(NETREM, ck=.6, mva=.3)
CKALL = dict(ALL, ck=.6, late=0, m=10, nets=[1, 2])
REMMV = dict(NETREM, mva=.4)
SPREM = dict(spaces=2, mva=.1, nsync=.1, ops=["add", "rem", "rem", "set", "move", "move", "request"], m=10)
QSP = dict(SPMV, query=True, late=.2, nsync=.2, m=12)
QALL = dict(ALL, query=True, late=.4)


def run(c):
    m, gs, fams = PLAN[c.prop]
    mdl(c, *m)
    if c.thorough and c.prop in ("C09", "C12"):
        mdl(c, M_LINK[0], M_LINK[1])
    groups = {}
    for name, n, q, t in fams:
        rng = c.rng("%s/%d" % (name, n))
        ps = groups.setdefault(n, [[], []])
        ps[0].append(name)
        ps[1].extend(rand_prog(rng, n, globals()[name]) for _ in range(c.q(q, t)))
    n0 = min(n for n in groups if n >= 4)
    groups[n0][0].append("tlc-programs")
    groups[n0][1].extend(gen(c, c.q(40, 500), *gs))
    for n, (names, progs) in sorted(groups.items()):
        c.conform("+".join(names), "drv_ctx.py", progs, *Z, n=n, merge=merge)
