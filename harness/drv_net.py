"""Drives networks on one rank; see specs/NetTrace.tla."""
import rt
from mpi4py import MPI
import networkx as nx
from repast4py import core, context
from repast4py.network import UndirectedSharedNetwork, DirectedSharedNetwork


class Ag(core.Agent):
    def save(self):
        return (self.uid,)


def handler(prog, rec, comm):
    c = prog["cfg"]
    ctx = context.SharedContext(comm)
    nets = [(DirectedSharedNetwork if d else UndirectedSharedNetwork)("n%d" % i, comm) for i, d in enumerate(c["nets"])]
    ag = [None] + [Ag(*prog["uids"][i - 1]) for i in range(1, c["m"] + 1)]
    no = {a: i for i, a in enumerate(ag) if a is not None}
    late = prog["late"]
    inctx = set()
    if not late:
        for n in nets:
            ctx.add_projection(n)
        joined = True
    else:
        joined = False

    def enter(a):
        ctx.add(ag[a])
        inctx.add(a)
        if joined:
            rec("enter", a=a)

    def err(f):
        try:
            f()
            return False
        except (nx.NetworkXError, KeyError):
            return True

    def obs(i):
        n = nets[i]
        mem = [a for a in no.values() if ag[a] in n]
        rec("obs", i=i + 1, dir=bool(n.is_directed), nodes=[no[a] for a in n], n=n.node_count, m=n.edge_count,
            edges=[[no[u], no[v], sorted(([k, w] for k, w in d.items()), key=str)] for u, v, d in n.graph.edges(data=True)],
            num=[[a, n.num_edges(ag[a])] for a in mem],
            has=[[u, v] for u in no.values() for v in no.values() if n.contains_edge(ag[u], ag[v])], mem=mem)

    for o in prog["ops"]:
        k = o["k"]
        if k == "join":
            if not joined:
                for n in nets:
                    ctx.add_projection(n)
                joined = True
                for a in list(inctx):
                    rec("enter", a=a)
            continue
        if k == "enter":
            if o["a"] not in inctx:
                enter(o["a"])
            continue
        if k == "leave":
            a = o["a"]
            if a in inctx and joined and all(ag[a] in n for n in nets):
                ctx.remove(ag[a])
                inctx.discard(a)
                rec("leave", a=a)
            continue
        if k == "sync":
            ctx.synchronize(lambda d: None)
            rec("sync")
            continue
        i = o.get("i", 0) % len(nets)
        n = nets[i]
        if k == "obs":
            obs(i)
        elif k == "nodes":
            if len(o["as"]) == 1:
                n.add(ag[o["as"][0]])
            else:
                n.add_nodes([ag[a] for a in o["as"]])
            rec("nodes", i=i + 1, **{"as": o["as"]})
        elif k == "remove":
            rec("remove", i=i + 1, a=o["a"], err=err(lambda: n.remove(ag[o["a"]])))
        elif k == "clear":
            n.clear_edges()
            rec("clear", i=i + 1)
        else:
            u, v = ag[o["u"]], ag[o["v"]]
            at = {x[0]: x[1] for x in o.get("at", [])}
            if k == "add_edge":
                n.add_edge(u, v, **at)
                rec(k, i=i + 1, u=o["u"], v=o["v"], at=o["at"])
            elif k == "update_edge":
                rec(k, i=i + 1, u=o["u"], v=o["v"], at=o["at"], err=err(lambda: n.update_edge(u, v, **at)))
            elif k == "remove_edge":
                rec(k, i=i + 1, u=o["u"], v=o["v"], err=err(lambda: n.remove_edge(u, v)))
    for i in range(len(nets)):
        obs(i)


if __name__ == "__main__":
    rt.main(handler)
