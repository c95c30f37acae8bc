"""Runs a program several times, in surroundings that differ; see specs/RunTrace.tla."""
import ctypes, hashlib, json, os, random, shutil, tempfile
import numpy as np
import networkx as nx
import torch
import rt
from mpi4py import MPI
from repast4py import core, context, space, network, schedule, value_layer, parameters
from repast4py import random as rrandom
from repast4py.schedule import PriorityType
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType
from repast4py.geometry import BoundingBox
import drv_ctx, drv_sched, drv_netfile

LIBC = ctypes.CDLL(None)
LIBC.malloc.restype = ctypes.c_void_p
LIBC.malloc.argtypes = [ctypes.c_size_t]
LIBC.free.argtypes = [ctypes.c_void_p]
TWIN = int(os.environ.get("R4V_TWIN", "0"))


class Ag(core.Agent):
    def __init__(self, i, t, r, st=0):
        super().__init__(i, t, r)
        self.st = st

    def save(self):
        return (self.uid, self.st)

    def update(self, st):
        self.st = st


def restore(d):
    return Ag(*d[0], d[1])


def disturb(k):
    """what may differ between runs: other generators, the addresses of objects"""
    random.seed(k)
    np.random.seed(k)
    # holes of all sizes, so that what is allocated next is in no particular order in memory
    ps = [LIBC.malloc(random.randrange(16, 200)) for _ in range(random.randrange(500, 4000))]
    random.shuffle(ps)
    for p in ps[:len(ps) * 3 // 4]:
        LIBC.free(p)
    return [[object() for _ in range(random.randrange(1, 400))] for _ in range(random.randrange(1, 60))]


def handler(prog, rec, comm):
    keep = []
    if TWIN == 1 and comm.Get_size() == 1:
        # something else went on before
        rrandom.init(99)
        rrandom.default_rng.random(7)
    for j in range(2 if TWIN == 1 else 1):
        keep.append(disturb(os.getpid() * 7 + j))
        n = 2 if TWIN == 0 else 3 + j
        rec("run", j=1 if TWIN == 0 else 2 + j)
        sub = []

        def take(k, **kw):
            kw["k"] = k
            sub.append(kw)
        kind = prog["kind"]
        if kind == "ctx":
            drv_ctx.handler(prog, take, comm)
        elif kind == "sched":
            drv_sched.handler(prog, take, comm)
        elif kind == "netfile":
            drv_netfile.handler(prog, take, comm)
        else:
            model(prog, take, comm)
        r = comm.Get_rank()
        for e in sub:
            rec("e", r=r, v=text(e))
        rec("e", r=r, v="end " + state())
        del n


def text(e):
    s = json.dumps(e, sort_keys=True, default=rt._conv)
    return s if len(s) < 80 else s[:40] + hashlib.sha1(s.encode()).hexdigest()


def state():
    return hashlib.sha1(json.dumps(rrandom.default_rng.bit_generator.state, sort_keys=True, default=str).encode()).hexdigest()[:10] \
        + hashlib.sha1(torch.get_rng_state().numpy().tobytes()).hexdigest()[:6]


def model(prog, rec, comm):
    """a small simulation which uses all random choices of the package"""
    n, r = prog["cfg"]["n"], comm.Get_rank()
    sub = comm.Split(0 if r < n else 1, r)
    d = tempfile.mkdtemp(prefix="run.", dir=os.environ["R4V_SCRATCH"])
    try:
        if r < n:
            Model(prog, rec, sub, d).run()
    finally:
        shutil.rmtree(d)
        sub.Free()


class Model:
    def __init__(self, prog, rec, comm, d):
        self.rec, self.prog, self.comm, self.d, self.r = rec, prog, comm, d, comm.Get_rank()
        if prog["by"] == "params":
            f = os.path.join(d, "p.yaml")
            with open(f, "w") as h:
                h.write("random.seed: %d\n" % (prog["seed"] if prog["over"] is None else 5))
            parameters.init_params(f, "{}" if prog["over"] is None else '{"random.seed": %d}' % prog["seed"])
        else:
            rrandom.init(prog["seed"])
        b = BoundingBox(*[x for e in prog["ext"] for x in (0, e)], *[0] * (6 - 2 * len(prog["ext"])))
        self.ctx = context.SharedContext(comm)
        self.grid = space.SharedGrid("g", b, BorderType.Periodic, OccupancyType.Multiple, 1, comm)
        self.cs = space.SharedCSpace("c", b, BorderType.Periodic, OccupancyType.Single if prog.get("single") else OccupancyType.Multiple,
                                     1, comm, prog.get("thr", 3))
        self.net = network.UndirectedSharedNetwork("n", comm)
        for p in (self.grid, self.cs, self.net):
            self.ctx.add_projection(p)
        self.b = b
        for i in range(prog["na"]):
            self.ctx.add(Ag(i, i % 3, self.r))
        self.runner = schedule.init_schedule_runner(comm)

    def say(self, what, **kw):
        self.rec(what, t=self.runner.schedule.tick, **kw)

    def uids(self, it):
        return [list(a.uid) for a in it]

    def act(self, k, x):
        rng = rrandom.default_rng
        if k == "place":
            for a in self.ctx.agents(shuffle=x % 2 == 1):
                p = self.cs.get_random_local_pt(rng)
                q = DiscretePoint(*[int(np.floor(c)) for c in p.coordinates])
                self.cs.move(a, p)
                self.grid.move(a, q)
                self.say("place", u=list(a.uid), p=[float(c) for c in p.coordinates])
        elif k == "pt":
            self.say("pt", p=[int(c) for c in self.grid.get_random_local_pt(rng).coordinates])
        elif k == "walk":
            for a in list(self.ctx.agents(shuffle=True)):
                p = self.cs.get_location(a)
                if p is not None:
                    m = [c + rng.normal(0, 1.5) if i < len(self.prog["ext"]) else c for i, c in enumerate(p.coordinates)]
                    q = self.cs.move(a, ContinuousPoint(*m))
                    self.grid.move(a, DiscretePoint(*[int(np.floor(c)) for c in q.coordinates]))
        elif k == "shuffle":
            self.say("shuffle", us=self.uids(self.ctx.agents(shuffle=True)), some=self.uids(self.ctx.agents(x % 3, count=x % 5, shuffle=True))
                     if self.ctx.contains_type(x % 3) else [])
        elif k == "near":       # neighbours, in the order in which a model meets them
            for a in list(self.ctx.agents()):
                p = self.cs.get_location(a)
                if p is not None:
                    c = [float(z) for z in p.coordinates]
                    w = 1 + x % 3
                    nd = len(self.prog["ext"])
                    bb = BoundingBox(*[z for i in range(nd) for z in (int(c[i]) - w, 2 * w)], *[0] * (6 - 2 * nd))
                    lb = self.cs.get_local_bounds()
                    self.say("near", u=list(a.uid), at=self.uids(self.grid.get_agents(self.grid.get_location(a))),
                             box=self.uids(self.cs.get_agents_within(bb)))
                    del lb
        elif k == "link":
            us = list(self.ctx.agents(shuffle=True))
            for a, b in zip(us, us[1:]):
                self.net.add_edge(a, b, w=float(rng.random()))
        elif k == "sync":
            pass
        elif k == "graph":
            self.say("graph", nodes=self.uids(self.net), edges=[[list(a.uid), list(b.uid), d.get("w")] for a, b, d in self.net.graph.edges(data=True)],
                     deg=[[list(a.uid), self.net.num_edges(a)] for a in self.ctx.agents()])
        elif k == "layer":
            v = value_layer.ValueLayer(self.b, BorderType.Periodic, "random", dtype=torch.float64)
            self.say("layer", v=[float(z) for z in v.impl.grid.flatten()[:5]])
        elif k == "slayer":     # on every rank
            v = value_layer.SharedValueLayer(self.comm, self.b, BorderType.Periodic, 1, "random")
            self.say("slayer", v=[float(z) for z in v.impl.grid.flatten()[:5]])
        elif k == "part":
            g = nx.gnm_random_graph(9 + x % 5, 12, seed=x)
            f = os.path.join(self.d, "n%d" % x)
            network.write_network(g, "net", f, 1 + x % 4)
            with open(f) as h:
                self.say("part", f=hashlib.sha1(h.read().encode()).hexdigest())
        elif k == "state":
            self.say("state", s=sorted([list(a.uid), a.st] for a in self.ctx.agents()))
        elif k == "init":
            rrandom.init(x)

    def run(self):
        p = self.prog
        for i, (at, iv, pt, pr, k, x) in enumerate(p["ops"]):
            def f(i=i, k=k, x=x):
                self.say("event", i=i)
                self.act(k, x)
                if k in ("sync", "slayer"):
                    self.ctx.synchronize(restore)
                    self.say("order", us=self.uids(self.ctx.agents()))
            kw = dict(priority_type=[PriorityType.FIRST, PriorityType.LAST, PriorityType.RANDOM, PriorityType.BY_PRIORITY][pt])
            if pt == 3:
                kw["priority"] = pr
            if iv:
                self.runner.schedule_repeating_event(at, iv, f, **kw)
            else:
                self.runner.schedule_event(at, f, **kw)
        self.runner.schedule_stop(p["stop"])
        self.runner.execute()


if __name__ == "__main__":
    rt.main(handler)
