"""Drives ValueLayer, SharedValueLayer, ReadWriteValueLayer; see specs/VLTrace.tla."""
import math, random
import rt
from mpi4py import MPI
import numpy as np
import torch
from repast4py import context
from repast4py.space import BorderType, DiscretePoint
from repast4py.value_layer import ValueLayer, SharedValueLayer, ReadWriteValueLayer
from repast4py.geometry import BoundingBox

SCALE = 1 << 30


def handler(prog, rec, comm):
    c = prog["cfg"]
    n = c["n"]
    r = comm.Get_rank()
    sub = comm.Split(0 if r < n else 1, r)
    try:
        if r < n:
            one(prog, rec, sub, r)
    finally:
        sub.Free()


def one(prog, rec, comm, r):
    """the layers of the program, all in one context; the operations in their order, each on its layer ("y", default
    all of them), synchronizations on the context"""
    ctx = context.SharedContext(comm)
    ly = [Layer(q, rec, comm, r, y, ctx) for y, q in enumerate(prog["layers"])]
    for o in prog["ops"]:
        k = o["k"]
        if k == "sync":
            if prog["layers"][0]["kind"] != "plain":
                how = o.get("how", 0)
                if how == 1:
                    ctx.move_agents([], None)
                elif how == 2:
                    ctx.synchronize(None, sync_ghosts=False)
                else:
                    ctx.synchronize(None)
                rec("sync" if how != 2 else "nosync")
        else:
            for y in ly:
                if o.get("y", y.y) == y.y:
                    y.op(o)
    for y in ly:
        y.end()


class Layer:
    def __init__(self, prog, rec0, comm, r, y, ctx):
        self.y = y
        def rec(k, **kw):
            rec0(k, y=y + 1, **kw)
        self.ops(prog, rec, comm, r, ctx)

    def ops(self, prog, rec, comm, r, ctx):
        c = prog["cfg"]
        n, nd = c["n"], c["dims"]
        b, sh = [], prog.get("shift", 0)      # where the specification's origin is in the code's coordinates
        for d in range(3):
            b += [c["lo"][d] + sh, c["ext"][d]] if d < nd else [0, 0]
        bounds = BoundingBox(*b)
        per = BorderType.Periodic if c["per"] else BorderType.Sticky
        dt = dict(f64=torch.float64, f32=torch.float32, i64=torch.int64, i32=torch.int32)[prog["dtype"]]
        rand = prog["random"]
        off = prog.get("voff", 0)      # values this far from those of the specification
        iv = "random" if rand else c["init"] + off
        cls = dict(plain=ValueLayer, shared=SharedValueLayer, rw=ReadWriteValueLayer)[prog["kind"]]
        if prog["kind"] == "plain":
            vl = cls(bounds, per, iv, dt)
        else:
            vl = cls(comm, bounds, per, prog["buf"], iv, dt)
        rw = prog["kind"] == "rw"
        first = vl.read_layer if rw else vl
        if prog["kind"] != "plain":
            ctx.add_value_layer(vl)
            lb = first.local_bounds
        else:
            lb = bounds
        lo = [int(lb[2 * d]) - sh for d in range(nd)]
        hi = [int(lb[2 * d] + lb[2 * d + 1]) - sh for d in range(nd)]
        rec("box", r=r, lo=lo, hi=hi)
        rec("ready")
        cb = c["b"]
        wlo, whi = [], []
        for d in range(nd):
            g0, g1 = c["lo"][d], c["lo"][d] + c["ext"][d]
            wlo.append(lo[d] - cb if c["per"] or lo[d] > g0 else lo[d])
            whi.append(hi[d] + cb if c["per"] or hi[d] < g1 else hi[d])

        def val(v):
            v = v.item() if hasattr(v, "item") else v
            if rand:
                return int(math.floor(v * SCALE))
            v -= off
            return int(v) if v == int(v) and abs(v) < 10 ** 9 else 10 ** 9

        def put(v):
            return (v * 4 + 1) / SCALE if rand else v + off      # exact in float32

        def pv(v):
            return v * 4 + 1 if rand else v

        def pt(p):
            return DiscretePoint(*([int(x) + sh for x in p] + [0] * (3 - nd)))

        def tensor(i):
            if rw:
                return vl.read_grid if i == 1 else vl.write_grid
            return vl.grid

        def dump(k="dump"):
            for i in ((1, 2) if rw else (1,)):
                rec(k, r=r, i=i, vals=[val(x) for x in tensor(i).flatten().tolist()])

        def cells(a, z):
            out = [()]
            for d in range(nd):
                out = [q + (x,) for q in out for x in range(a[d], z[d])]
            return out

        if rand:
            dump("init")
            rec("coherent")
        else:
            dump()
        win = cells(wlo, whi)
        own = cells(lo, hi)
        rng = random.Random("%s/%d" % (prog["seed"], r))

        def alias(q, how):
            """another way to name the same position"""
            q = list(q)
            if how == 0:
                return q
            for d in range(nd):
                g0, e = c["lo"][d], c["ext"][d]
                if c["per"]:
                    if how == 1:
                        # the cell's own coordinate; a position of the window that is a copy of an own cell has no other name
                        w = (q[d] - g0) % e + g0
                        if not (lo[d] <= w < hi[d] and not lo[d] <= q[d] < hi[d]):
                            q[d] = w
                    else:
                        if lo[d] <= q[d] < hi[d]:
                            q[d] += rng.choice([0, 0, e, -e, 5 * e])
                            if wlo[d] <= q[d] < whi[d] and not lo[d] <= q[d] < hi[d]:
                                q[d] = (q[d] - g0) % e + g0
                elif how == 2:
                    if q[d] == g0:
                        q[d] -= rng.choice([0, 1, 2, 100])
                    elif q[d] == g0 + e - 1:
                        q[d] += rng.choice([0, 1, 2, 100])
            return q

        def get(q):
            rec("get", r=r, p=list(q), v=val(vl.get(pt(q))))

        def nghs(q):
            vals, locs = vl.get_nghs(pt(q))
            locs = np.asarray(locs)
            ls = [[int(x) - sh] for x in locs] if nd == 1 else [[int(x) - sh for x in row] for row in locs.T]
            rec("nghs", r=r, p=list(q), locs=ls, vals=[val(x) for x in vals.tolist()])

        canng = cb > 0 or n == 1
        def op(o):
            k = o["k"]
            if k == "swap":
                vl.swap_layers()
                rec("swap")
            elif k == "obs":
                dump()
                for q in (win if len(win) <= o["max"] else rng.sample(win, o["max"])):
                    get(alias(q, rng.choice([0, 1, 2])))
                if canng:
                    for q in (own if len(own) <= o["max"] // 3 else rng.sample(own, o["max"] // 3)):
                        nghs(q)
                dump()
            elif o["r"] == r:
                if k == "set":
                    q = o["p"][:nd] if "p" in o else alias(rng.choice(win if rng.random() < .3 else own), o["how"])
                    vl.set(pt(q), put(o["v"]))
                    rec("set", r=r, p=list(q), v=pv(o["v"]))
                elif k == "get":
                    get(alias(rng.choice(win), o["how"]))
                elif k == "nghs" and canng:
                    nghs(rng.choice(own))

        def end():
            bb = vl.bounds
            if prog["kind"] == "plain":
                rec("bounds", lo=[int(bb[2 * d]) - sh for d in range(nd)], hi=[int(bb[2 * d] + bb[2 * d + 1]) - sh for d in range(nd)])

        self.op, self.end = op, end


if __name__ == "__main__":
    rt.main(handler)
