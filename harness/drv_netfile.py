"""Drives write_network and read_network; see specs/NetFileTrace.tla."""
import json, os, random, sys, types
import rt
from mpi4py import MPI
import networkx as nx
import numpy as np
from repast4py import core, context, network
from repast4py import random as rrandom

DIR = os.environ["R4V_SCRATCH"]


class Ag(core.Agent):
    def __init__(self, i, t, r, at):
        super().__init__(i, t, r)
        self.at = at

    def save(self):
        return (self.uid, self.at)

    def update(self, at):
        self.at = at


def create(nid, agent_type, rank, **kw):
    return Ag(nid, agent_type, rank, kw)


def restore(d):
    return Ag(d[0][0], d[0][1], d[0][2], d[1])


def at(d):
    return sorted([k, json.dumps(v, sort_keys=True)] for k, v in d.items())


def un(rows):
    return {k: json.loads(v) for k, v in rows}


def metis(graph, n, **kw):
    """stands in for the METIS binding, which is not installed: an even partition with parts in any order"""
    r = random.Random(graph.number_of_nodes())
    nodes = list(graph.nodes)
    r.shuffle(nodes)
    parts = [nodes[i::n] for i in range(n)]
    r.shuffle(parts)
    return 0, parts


sys.modules["nxmetis"] = types.SimpleNamespace(partition=metis)


def write(prog, path):
    c = prog["cfg"]
    g = nx.DiGraph() if c["dir"] else nx.Graph()
    for i, ty, _, a in c["nodes"]:
        kw = un(a)
        if ty or prog["type0"]:
            kw["agent_type"] = ty
        g.add_node(i, **kw)
    for u, v, a in c["edges"]:
        g.add_edge(u, v, **un(a))
    kw = {}
    rrandom.init(prog["seed"])
    how = prog["rng"]
    if how == 1:
        kw = dict(partition_method="random")
    elif how == 2:
        kw = dict(partition_method="random", rng="default")
    elif how == 3:
        kw = dict(rng=np.random.default_rng(prog["seed"]))
    elif how == 4:
        kw = dict(partition_method="metis")
    for p, n in ([(path + ".other", prog["twice"])] if prog.get("twice") else []) + [(path, c["p"])]:
        if how == 3:
            kw = dict(rng=np.random.default_rng(prog["seed"]))
        network.write_network(g, c["name"], p, n, **kw)
    if prog.get("twice"):
        os.unlink(path + ".other")


def parse(path, rec):
    """what the documentation says about the format, read independently"""
    nodes, edges = [], []
    with open(path) as f:
        name, kind = f.readline().split()
        into = nodes
        for line in f:
            if line.strip() == "EDGES" and into is nodes:
                into = edges
                continue
            p = line.split(None, 3 if into is nodes else 2)
            k = 3 if into is nodes else 2
            into.append([int(x) for x in p[:k]] + [at(json.loads(p[k])) if len(p) > k else []])
    rec("file", name=name, dir=kind == "1", nodes=nodes, edges=edges)


def by_hand(prog, path):
    c = prog["cfg"]
    sep = prog["sep"]
    with open(path, "w") as f:
        f.write("%s %d\n" % (c["name"], c["dir"]))
        for i, ty, r, a in c["nodes"]:
            f.write(sep.join([str(i), str(ty), str(r)]) + ((sep + json.dumps(un(a), separators=prog["js"])) if a or prog["empty"] else "") + "\n")
        f.write("EDGES\n")
        for u, v, a in c["edges"]:
            f.write(sep.join([str(u), str(v)]) + ((sep + json.dumps(un(a), separators=prog["js"])) if a or prog["empty"] else "") + "\n")


def handler(prog, rec, comm):
    c = prog["cfg"]
    n = c["n"]
    r = comm.Get_rank()
    sub = comm.Split(0 if r < n else 1, r)
    path = os.path.join(DIR, "net.%d.%s" % (os.getpid() if comm.size == 1 else 0, os.environ.get("R4V_PART", "")))
    try:
        if r < n:
            one(prog, rec, sub, r, path)
    finally:
        sub.Free()


def one(prog, rec, comm, r, path):
    c = prog["cfg"]
    if r == 0:
        if prog["hand"]:
            by_hand(prog, path)
            rec("given")
        else:
            write(prog, path)
            parse(path, rec)
    comm.Barrier()
    ctx = context.SharedContext(comm)
    network.read_network(path, ctx, create, restore)
    rec("read")
    comm.Barrier()
    if r == 0:
        os.unlink(path)
    net = ctx.get_projection(c["name"])
    ids = [x[0] for x in c["nodes"]]

    def row(a):
        return [a.uid[0], a.uid[1], a.uid[2], a.local_rank, at(a.at)]

    def find(u):
        """the agent and whether it is local"""
        for a in net:
            if a.uid[0] == u:
                return a, ctx.agent(a.uid) is a
        return None, False

    def seen():
        gh = {id(a): a for a in net if ctx.agent(a.uid) is not a}
        for u in ids:       # and any other
            for ty in {x[1] for x in c["nodes"]}:
                for b in range(c["p"]):
                    a = ctx.ghost_agent((u, ty, b))
                    if a is not None:
                        gh[id(a)] = a
        rec("seen", r=r, name=net.name, dir=bool(net.is_directed), loc=[row(a) for a in ctx.agents()],
            gh=[row(a) for a in gh.values()], nodes=[a.uid[0] for a in net],
            edges=[[u.uid[0], v.uid[0], at(d)] for u, v, d in net.graph.edges(data=True)])
        rec("all")

    seen()
    for o in prog["ops"]:
        k = o["k"]
        if k == "sync":
            ctx.synchronize(restore)
            rec("sync")
            seen()
            continue
        u, ul = find(o["u"])
        if k == "del":
            if ul:
                ctx.remove(u)
                rec("del", r=r, u=o["u"])
            continue
        v, vl = find(o["v"])
        if not ((ul, vl)[o["side"]] and u is not None and v is not None):
            continue
        if k == "set":
            w = un(o["w"])
            if net.contains_edge(u, v) and w:
                net.update_edge(u, v, **w)
            else:
                net.add_edge(u, v, **w)
            rec("set", r=r, u=o["u"], v=o["v"], w=o["w"])
        elif net.contains_edge(u, v):
            net.remove_edge(u, v)
            rec("cut", r=r, u=o["u"], v=o["v"])


if __name__ == "__main__":
    rt.main(handler)
