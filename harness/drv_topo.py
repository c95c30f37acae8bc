"""Local bounds and buffer regions of every rank; see specs/TopoTrace.tla."""
import math
import rt
import numpy as np
from mpi4py import MPI
import torch
from repast4py import space
from repast4py.space import BorderType, OccupancyType, CartesianTopology
from repast4py.value_layer import SharedValueLayer
from repast4py.geometry import BoundingBox


def handler(prog, rec, comm):
    c = prog["cfg"]
    n, nd = c["n"], c["dims"]
    r = comm.Get_rank()
    sub = comm.Split(0 if r < n else 1, r)
    try:
        if r >= n:
            return
        b, sh = [], prog.get("shift", 0)
        for d in range(3):
            b += [c["lo"][d] + sh, c["ext"][d]] if d < nd else [0, 0]
        bounds = BoundingBox(*b)
        per = BorderType.Periodic if c["per"] else BorderType.Sticky
        buf = prog["buf"]

        def box(kind, bb, **kw):
            bb = list(bb)
            rec("box", kind=kind, r=r, lo=[bb[2 * d] - sh for d in range(nd)], hi=[bb[2 * d] + bb[2 * d + 1] - sh for d in range(nd)], b=buf, **kw)

        t = CartesianTopology(sub, bounds, c["per"])
        sends = []
        if c["sends"]:
            for q, x in t.compute_buffer_nghs(buf):
                sends.append(dict(q=int(q), lo=[int(x[2 * d]) - sh for d in range(nd)], hi=[int(x[2 * d + 1]) - sh for d in range(nd)]))
        box("topo", t.local_bounds, co=[int(x) for x in t.coordinates], ppd=[int(x) for x in t.procs_per_dim], sends=sends)
        if prog["spaces"]:
            g = space.SharedGrid("g", bounds, per, OccupancyType.Multiple, buf, sub)
            box("grid", g.get_local_bounds())
            s = space.SharedCSpace("s", bounds, per, OccupancyType.Multiple, buf, sub, 10)
            box("cspace", s.get_local_bounds())
            lb = list(g.get_local_bounds())
            cells = 1
            for d in range(nd):
                cells *= int(lb[2 * d + 1])
            rng = np.random.default_rng(r)
            for kind, sp in (("grid", g), ("cspace", s)):
                pts = {tuple(math.floor(x) for x in sp.get_random_local_pt(rng).coordinates) for _ in range(400 if cells <= 12 else 40)}
                rec("rpt", kind=kind, r=r, pts=[[x - sh if d < nd else x for d, x in enumerate(q)] for q in sorted(pts)], all=cells <= 12)
            if nd < 3 and c["sends"]:
                v = SharedValueLayer(sub, bounds, per, buf, 0, torch.int64)
                box("vl", v.local_bounds)
    finally:
        sub.Free()


if __name__ == "__main__":
    rt.main(handler)
