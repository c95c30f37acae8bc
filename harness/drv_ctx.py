"""Drives SharedContext with spaces and networks on several ranks; see specs/CtxTrace.tla.

Agents are numbered 1..m; agent u has type ty[u-1] and the rank it was added on.  A local
operation is executed by the rank that has the agent, if it can be; what was executed, and
what every rank sees afterwards, is recorded.  Only the public API is used."""
import os
import random
import dill
import rt
from mpi4py import MPI
from repast4py import core, context, space, network, checkpoint
from repast4py import random as rrandom
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType
from repast4py.geometry import BoundingBox
from drv_space import enc, U


class Ag(core.Agent):
    def __init__(self, i, t, r, st):
        super().__init__(i, t, r)
        self.st = st

    def save(self):
        return (self.uid, self.st)

    def update(self, st):
        self.st = st


def handler(prog, rec, comm):
    n = prog["cfg"]["n"]
    r = comm.Get_rank()
    sub = comm.Split(0 if r < n else 1, r)
    try:
        if r < n:
            World(prog, rec, sub, r).run()
    finally:
        sub.Free()


class World:
    def __init__(self, prog, rec, comm, r):
        self.prog, self.rec, self.comm, self.r = prog, rec, comm, r
        c = self.c = prog["cfg"]
        self.m = len(c["ty"])
        self.ids = prog.get("ids") or list(range(1, self.m + 1))
        self.nums = {self.uid(u): u for u in range(1, self.m + 1)}
        self.ctx = context.SharedContext(comm)
        self.cache = {} if prog.get("cache") else None
        self.uids = {}          # number -> uid, as far as this rank can know
        self.sp, self.nets = [None] * len(c["sp"]), [None] * len(c["nets"])
        self.late = prog.get("late", [])
        self.slots = {}
        for k, i in prog["order"]:
            if [k, i] not in self.late:
                self.make(k, i)
        rrandom.init(prog.get("seed", 1))

    def make(self, k, i):
        c, comm = self.c, self.comm
        if k == "s":
            g = c["sp"][i]
            u = 1 if g["kind"] == "grid" else U
            sh = self.shift(i)
            b = BoundingBox(*[int(x) for d in range(3) for x in (g["lo"][d] // u + sh[d], (g["hi"][d] - g["lo"][d]) // u)])
            per = BorderType.Periodic if g["per"] == "periodic" else BorderType.Sticky
            occ = OccupancyType.Single if g["occ"] == "single" else OccupancyType.Multiple
            if g["kind"] == "grid":
                p = space.SharedGrid("s%d" % i, b, per, occ, g["b"] // u, comm)
            else:
                p = space.SharedCSpace("s%d" % i, b, per, occ, g["b"] // u, comm, self.prog.get("thr", 2))
            self.sp[i] = p
            lb = p.get_local_bounds()
            lo = [(int(x) - s) * u for x, s in zip((lb.xmin, lb.ymin, lb.zmin), sh)]
            ex = [int(x) * u for x in (lb.xextent, lb.yextent, lb.zextent)]
            self.rec("box", r=self.r, i=i + 1, lo=lo, hi=[a + e for a, e in zip(lo, ex)])
        else:
            p = (network.DirectedSharedNetwork if c["nets"][i]["dir"] else network.UndirectedSharedNetwork)("n%d" % i, comm)
            self.nets[i] = p
        self.ctx.add_projection(p)

    # ---- checkpoints
    def save(self, o):
        """C24: save to slot o["slot"], now in a file (o["file"]) or as a live object"""
        ctx, rng = self.ctx, random.Random(o["seed"])
        ck = checkpoint.Checkpoint()
        us = []

        def agents():
            if o.get("by_type"):
                for t in sorted(set(self.c["ty"])):
                    if ctx.contains_type(t):
                        us.extend(self.num(a.uid) for a in ctx.agents(t))
                        ck.save_agents(ctx.agents(t))
            else:
                us.extend(self.num(a.uid) for a in ctx.agents())
                ck.save_agents(ctx.agents())

        def spaces():
            for s in self.sp:
                if s is not None:
                    ck.save_space(ctx, s)

        def nets():
            for nw in self.nets:
                if nw is not None:
                    ck.save_network(nw, self.r)

        def other():
            ck.save("x", {"rank": self.r, "us": list(us), "slot": o["slot"]})
            ck.save_random()
        todo = [agents, spaces, nets]
        rng.shuffle(todo)
        for f in todo + [other]:
            f()
        draw = rrandom.default_rng.bit_generator.state
        if o["file"]:
            path = os.path.join(os.environ["R4V_SCRATCH"], "ck_%d_%d_%d.bin" % (os.getpid(), self.r, o["slot"]))
            with open(path, "wb") as f:
                dill.dump(ck, f)
            ck = path
        self.slots[o["slot"]] = (ck, [s is not None for s in self.sp], [x is not None for x in self.nets], list(us), draw)
        self.rec("csave", r=self.r, us=us)
        self.rec("save", slot=o["slot"])

    def load(self, o):
        """C24: a new context with the agents, spaces and networks of slot o["slot"]"""
        rng = random.Random(o["seed"])
        ck, sps, nws, us, draw = self.slots[o["slot"]]
        if isinstance(ck, str):
            with open(ck, "rb") as f:
                ck = dill.load(f)
        self.ctx = context.SharedContext(self.comm)
        self.cache = {} if self.cache is not None else None
        self.sp, self.nets = [None] * len(sps), [None] * len(nws)
        projs = [["s", i] for i, b in enumerate(sps) if b] + [["n", i] for i, b in enumerate(nws) if b]
        rng.shuffle(projs)
        early = o.get("early", True)
        if early:
            for k, i in projs:
                self.make(k, i)
        for a in ck.restore_agents(self.restore):
            self.ctx.add(a)
        rng.shuffle(projs)
        for k, i in projs:
            if not early:
                self.make(k, i)
            if k == "s":
                ck.restore_space(self.ctx, self.sp[i])
            else:
                ck.restore_network(self.ctx, self.nets[i], self.restore)
        x = ck.restore("x", lambda v, y: (v, y), 7)
        ok = x == ({"rank": self.r, "us": us, "slot": o["slot"]}, 7)
        try:
            ck.restore("y", lambda v: v)
            ok = False
        except KeyError:
            pass
        ck.restore_random()
        ok = ok and rrandom.default_rng.bit_generator.state == draw
        self.rec("other", r=self.r, ok=int(ok))
        self.rec("restore", slot=o["slot"])
        self.obs(True)

    def restore(self, data):
        (i, t, rk), st = data
        if self.cache is not None:
            a = self.cache.get((i, t, rk))
            if a is None:
                a = self.cache[(i, t, rk)] = Ag(i, t, rk, st)
            a.st = st
            return a
        return Ag(i, t, rk, st)

    # ---- names
    def num(self, uid):
        """the number of an agent, 0 if the uid is not one that was made"""
        return self.nums.get(tuple(uid), 0)

    def uid(self, u):
        return (self.ids[u - 1], self.c["ty"][u - 1], self.c["born"][u - 1])

    def local(self, u):
        return self.ctx.agent(self.uid(u))

    def ghost(self, u):
        return self.ctx.ghost_agent(self.uid(u))

    # ---- points
    def shift(self, i):
        """where the origin of the specification's coordinates is in the code's"""
        g = self.c["sp"][i]
        return [s if h > l else 0 for s, l, h in zip(self.prog.get("shift") or (0, 0, 0), g["lo"], g["hi"])]

    def pt(self, i, p):
        if self.c["sp"][i]["kind"] == "grid":
            return DiscretePoint(*[int(x) + s for x, s in zip(p, self.shift(i))])
        return ContinuousPoint(*[x / U + s for x, s in zip(p, self.shift(i))])

    def co(self, i, q):
        if q is None:
            return []
        c = [x - s for x, s in zip(q.coordinates.tolist(), self.shift(i))]
        return [int(x) for x in c] if self.c["sp"][i]["kind"] == "grid" else [enc(float(x)) for x in c]

    # ---- observation
    def obs(self, full):
        c, ctx = self.c, self.ctx
        any_ = {}
        for u in range(1, self.m + 1):
            a, g = self.local(u), self.ghost(u)
            any_[u] = a if a is not None else g
        loc = [[self.num(a.uid), a.st, a.local_rank] for a in ctx.agents()]
        gh = [[u, self.ghost(u).st, self.ghost(u).local_rank] for u in range(1, self.m + 1) if self.ghost(u) is not None]
        o = dict(r=self.r, loc=loc, gh=gh, same=1)
        if full:
            sps = []
            for i, s in enumerate(self.sp):
                if s is None:
                    sps.append(dict(at=[], con=[], pts=[]))
                    continue
                at, con, pts, seen = [], [], [], set()
                for u in range(1, self.m + 1):
                    a = any_[u] if any_[u] is not None else Ag(*self.uid(u), 0)
                    q = s.get_location(a)
                    if s.contains(a):
                        con.append(u)
                    if q is not None:
                        p = self.co(i, q)
                        at.append([u, p])
                        if tuple(p) not in seen:
                            seen.add(tuple(p))
                            here = list(s.get_agents(q))
                            one = s.get_agent(q)
                            pts.append([p, [self.num(x.uid) for x in here], self.num(one.uid) if one is not None else 0])
                            for x in here:
                                if any_.get(self.num(x.uid)) is not x:
                                    o["same"] = 0
                sps.append(dict(at=at, con=con, pts=pts))
            nets = []
            for i, nw in enumerate(self.nets):
                if nw is None:
                    nets.append(dict(nodes=[], edges=[], nc=0, ec=0, deg=[]))
                    continue
                nodes = [self.num(a.uid) for a in nw]
                for a in nw:
                    if any_.get(self.num(a.uid)) is not a:
                        o["same"] = 0
                es = []
                for a, b, d in nw.graph.edges(data=True):
                    if any_.get(self.num(a.uid)) is not a or any_.get(self.num(b.uid)) is not b:
                        o["same"] = 0
                    u, v = self.num(a.uid), self.num(b.uid)
                    if not nw.is_directed and u > v:
                        u, v = v, u
                    es.append([u, v, int(d.get("a", 0)), int(d.get("b", 0))])
                deg = [[self.num(a.uid), nw.num_edges(a)] for a in ctx.agents() if a in nw]
                nets.append(dict(nodes=nodes, edges=es, nc=nw.node_count, ec=nw.edge_count, deg=deg))
            o.update(sp=sps, nets=nets)
        self.rec("obs" if full else "ord", **o)

    def query(self):
        """C25: the ways of asking for the local agents"""
        ctx, ty = self.ctx, sorted(set(self.c["ty"])) + [77]
        nums = lambda it: [self.num(a.uid) for a in it]     # noqa
        have = [t for t in ty if ctx.contains_type(t)]
        every = ctx.size(ty)
        bt = [[t, nums(ctx.agents(t)), ctx.size([t])[t]] for t in ty]
        bt += [[t, nums(ctx.agents(agent_type=t)), every[t]] for t in ty]
        k = self.rng.randint(0, self.m + 1)
        cnt = [[-1, k, nums(ctx.agents(count=k))]] + [[t, k, nums(ctx.agents(t, count=k))] for t in ty]
        shu = [[-1, k, nums(ctx.agents(count=k, shuffle=True))], [-1, self.m + 9, nums(ctx.agents(shuffle=True))]]
        shu += [[t, j, nums(ctx.agents(t, j, True))] for t in ty for j in (k, self.m + 9)]
        self.rec("query", r=self.r, all=nums(ctx.agents()), have=have, bt=bt, cnt=cnt, shu=shu, size=ctx.size()[-1],
                 look=[u for u in range(1, self.m + 1) if self.local(u) is not None])

    # ---- the program
    def owners(self):
        """number -> rank, by asking everyone (harness communication)"""
        mine = [self.num(a.uid) for a in self.ctx.agents()]
        return {u: k for k, us in enumerate(self.comm.allgather(mine)) for u in us}

    def ends(self, o):
        """the objects of an edge operation on this rank, or None"""
        u, v = o["u"], o["v"]
        main, oth = (u, v) if o.get("side", 0) == 0 else (v, u)
        a = self.local(main)
        if a is None:
            return None
        b = self.local(oth)
        if b is None:
            b = self.ghost(oth)
        if b is None:
            return None
        return (a, b) if main == u else (b, a)

    def run(self):
        rec, r, c = self.rec, self.r, self.c
        self.rng = random.Random("%s/%d" % (self.prog.get("seed", 1), r))
        rec("ready")
        for o in self.prog["ops"]:
            k, ctx = o["k"], self.ctx
            if k in ("sync", "nsync"):
                ctx.synchronize(self.restore, k == "sync")
                rec(k)
                self.obs(False)
            elif k == "request":
                ow = self.owners()
                mine = []
                for q, u in o["q"]:
                    if q == r and u in ow and ow[u] != r and u not in mine:
                        mine.append(u)
                rec("req", r=r, us=mine)
                got = ctx.request_agents([(self.uid(u), ow[u]) for u in mine], self.restore)
                rec("request")
                rec("ret", r=r, asked=mine, us=[self.num(a.uid) for a in got],
                    same=int(all(self.ctx.ghost_agent(a.uid) is a for a in got)))
            elif k == "mva":
                mine = [[u, d] for u, d in o["m"] if d < c["n"] and d != r and self.local(u) is not None]
                rec("mvr", r=r, m=mine)
                ctx.move_agents([(self.uid(u), d) for u, d in mine], self.restore)
                rec("mva")
                self.obs(False)
            elif k == "obs":
                self.obs(True)
                if o.get("q"):
                    self.query()
            elif k == "save":
                self.save(o)
            elif k == "restore":
                self.load(o)
            elif k == "proj":       # a projection is added late
                self.make(o["t"], o["i"])
                rec("proj", r=r, t=o["t"], i=o["i"] + 1)
                try:
                    ctx.add_projection(self.sp[o["i"]] if o["t"] == "s" else self.nets[o["i"]])
                    ok = 0
                except ValueError:
                    ok = 1
                nm = "%s%d" % (o["t"], o["i"])
                ok &= ctx.get_projection(nm) is (self.sp[o["i"]] if o["t"] == "s" else self.nets[o["i"]])
                try:
                    ctx.get_projection("none")
                    ok = 0
                except KeyError:
                    pass
                rec("dup", r=r, ok=int(ok))
            elif k == "add":
                if c["born"][o["u"] - 1] == r:
                    a = Ag(*self.uid(o["u"]), o["v"])
                    if self.cache is not None:
                        self.cache[a.uid] = a
                    ctx.add(a)
                    rec("add", r=r, u=o["u"], v=o["v"])
            elif k == "rem":
                a = self.local(o["u"])
                if a is not None:
                    ctx.remove(a)
                    rec("rem", r=r, u=o["u"])
            elif k == "set":
                a = self.local(o["u"])
                if a is not None:
                    a.st = o["v"]
                    rec("set", r=r, u=o["u"], v=o["v"])
            elif k == "move":
                a = self.local(o["u"])
                if a is not None:
                    for i in o["i"]:        # the spaces, in step
                        if self.sp[i] is None:
                            continue
                        p = o["p"] if c["sp"][i]["kind"] == "grid" or not o.get("g") else [x * U for x in o["p"]]
                        q = self.sp[i].move(a, self.pt(i, p))
                        rec("move", r=r, u=o["u"], i=i + 1, p=p, q=self.co(i, q))
            elif k in ("edge", "upd", "del"):
                nw = self.nets[o["i"]]
                ab = self.ends(o) if nw is not None else None
                if ab is not None:
                    kw = {x: y for x, y in zip("ab", o.get("w", [0, 0])) if y}
                    has = nw.contains_edge(*ab)
                    if k == "edge":
                        nw.add_edge(*ab, **kw)
                    elif not has:
                        continue
                    elif k == "upd":
                        nw.update_edge(*ab, **kw)
                    else:
                        nw.remove_edge(*ab)
                    rec(k, r=r, i=o["i"] + 1, u=o["u"], v=o["v"], w=o.get("w", [0, 0]))
            elif k == "clear":
                if o["r"] == r and self.nets[o["i"]] is not None:
                    self.nets[o["i"]].clear_edges()
                    rec("clear", r=r, i=o["i"] + 1)
            else:
                raise RuntimeError("unknown op " + k)


if __name__ == "__main__":
    rt.main(handler)
