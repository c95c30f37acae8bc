"""Drives Grid, ContinuousSpace, SharedGrid, SharedCSpace on one rank; see specs/SpaceTrace.tla."""
import math
import rt
from mpi4py import MPI
import numpy as np
from repast4py import core, space, random as rrandom
from repast4py.space import DiscretePoint, ContinuousPoint, BorderType, OccupancyType
from repast4py.geometry import BoundingBox

U = 32


def enc(x):
    """continuous coordinate -> integer of the specification"""
    y = x * 8
    if y == math.floor(y):
        return int(y) * 4
    c = math.ceil(y)
    if abs(x - (c / 8 - 1e-8)) <= 2e-9:
        return c * 4 - 1
    return int(math.floor(y)) * 4 + 2


def shift(prog):
    c = prog["cfg"]
    return [s if h > l else 0 for s, l, h in zip(prog.get("shift") or (0, 0, 0), c["lo"], c["hi"])]


def make(cfg, sh=(0, 0, 0)):
    lo, hi = cfg["lo"], cfg["hi"]
    u = 1 if cfg["kind"] == "grid" else U
    b = [int(x) for d in range(3) for x in (lo[d] // u + sh[d], (hi[d] - lo[d]) // u)]
    bounds = BoundingBox(*b)
    per = BorderType.Periodic if cfg["per"] == "periodic" else BorderType.Sticky
    occ = OccupancyType.Single if cfg["occ"] == "single" else OccupancyType.Multiple
    if cfg["kind"] == "grid":
        if cfg["shared"]:
            return space.SharedGrid("g", bounds, per, occ, cfg.get("buf", 0), MPI.COMM_SELF)
        return space.Grid("g", bounds, per, occ)
    if cfg["shared"]:
        return space.SharedCSpace("s", bounds, per, occ, cfg.get("buf", 0), MPI.COMM_SELF, cfg["thr"])
    return space.ContinuousSpace("s", bounds, per, occ, cfg["thr"])


def handler(prog, rec, comm):
    cfg = prog["cfg"]
    if prog.get("mode") == "border":
        return borders(prog, rec)
    sh = shift(prog)
    sp = make(cfg, sh)
    grid = cfg["kind"] == "grid"
    ids = list(range(1, len(cfg["types"]) + 1))
    ag = {a: core.Agent((prog.get("ids") or ids)[a - 1], cfg["types"][a - 1], (prog.get("born") or ids)[a - 1]) for a in ids}
    no = {x.uid: a for a, x in ag.items()}
    pts = {}

    def pt(p):
        if grid:
            return DiscretePoint(*[int(x) + s for x, s in zip(p, sh)])
        return ContinuousPoint(*[x / U + s for x, s in zip(p, sh)])

    def co(q):
        c = [x - s for x, s in zip(q.coordinates.tolist(), sh)]
        return [int(x) for x in c] if grid else [enc(float(x)) for x in c]

    def qp(p):      # a point of the specification -> the coordinates used by the code
        if grid:
            return DiscretePoint(*[x + s for x, s in zip(p, sh)])
        return ContinuousPoint(*[(x + 1) / U + s - 1e-8 if x % 4 == 3 else x / U + s for x, s in zip(p, sh)])

    def obs():
        loc, inn = [], []
        for a in ids:
            q = sp.get_location(ag[a])
            loc.append(co(q) if q is not None else [])
            if q is not None:
                pts[tuple(loc[-1])] = 1
            inn.append(1 if sp.contains(ag[a]) else 0)
        at = []
        for p in list(pts):
            q = qp(p)
            g = [no.get(x.uid, 0) for x in sp.get_agents(q)]
            f = sp.get_agent(q)
            n, nt = -1, []
            if cfg["shared"]:
                n = int(sp.get_num_agents(q))
                nt = [int(sp.get_num_agents(q, agent_type=t)) for t in range(3)]
            at.append(dict(q=list(p), g=g, f=no.get(f.uid, 0) if f is not None else 0, n=n, nt=nt))
        rec("obs", ids=ids, loc=loc, at=at, **{"in": inn})

    every = prog.get("every", 1)
    for i, o in enumerate(prog["ops"]):
        k, a = o["k"], o.get("a")
        if k == "add":
            if sp.contains(ag[a]):
                sp.add(ag[a])
                rec("add2", a=a, loc=0 if sp.get_location(ag[a]) is None else 1)
            else:
                sp.add(ag[a])
                rec("add", a=a)
        elif k == "rm":
            sp.remove(ag[a])
            rec("rm", a=a)
        elif k == "move":
            try:
                q = sp.move(ag[a], pt(o["p"]))
                res = "none" if q is None else "pt"
            except Exception:
                q, res = None, "err"
            e = dict(a=a, p=o["p"], res=res, q=co(q) if q is not None else [])
            if q is not None:
                pts[tuple(e["q"])] = 1
            rec("move", **e)
        elif k == "within":
            box = BoundingBox(*[int(x) for d in range(3) for x in (o["lo"][d] // U + sh[d], (o["hi"][d] - o["lo"][d]) // U)])
            rec("within", lo=o["lo"], hi=o["hi"], got=[no.get(x.uid, 0) for x in sp.get_agents_within(box)])
        elif k == "rnd":
            q = sp.get_random_local_pt(rrandom.default_rng)
            c = [x - s for x, s in zip(q.coordinates.tolist(), sh)]
            c = [int(x) for x in c] if grid else [int(math.floor(x * U)) for x in c]
            rec("rnd", q=c)
        if k in ("add", "rm", "move") and (i % every == 0 or i == len(prog["ops"]) - 1):
            if len(pts) > 40:
                for p in list(pts)[:20]:
                    pts.pop(p)
            obs()


def borders(prog, rec):
    """arbitrary values, each dimension classified"""
    cfg = prog["cfg"]
    sp = make(cfg)
    grid = cfg["kind"] == "grid"
    u = 1 if grid else U
    lo = [x // u for x in cfg["lo"]]
    hi = [x // u for x in cfg["hi"]]
    a = core.Agent(1, 0, 0)
    sp.add(a)
    for p in prog["pts"]:
        q = sp.move(a, DiscretePoint(*p) if grid else ContinuousPoint(*p))
        out = [x.item() for x in q.coordinates]
        for d in range(3):
            if hi[d] == lo[d]:
                rec("border", per="sticky", inc=1, outc=1 if out[d] == 0 else 3, same=True, near=True, cong=True)
                continue
            x, y, ext = p[d], out[d], hi[d] - lo[d]

            def cls(v):
                return 0 if v < lo[d] else 1 if v == lo[d] else 3 if v >= hi[d] else 2
            if grid:
                near, cong = y == hi[d] - 1, (y - x) % ext == 0
            else:
                m = max(abs(lo[d]), abs(hi[d]))
                near = y < hi[d] and hi[d] - y <= max(1.1e-8, 4 * np.spacing(float(m)))
                r = (y - x) / ext
                tol = 8 * np.spacing(max(abs(x), float(m))) + 1e-12 * ext
                cong = abs((y - x) - round(r) * ext) <= tol or abs(abs((y - x) - round(r) * ext) - ext) <= tol
                same = x == y or (cfg["per"] == "periodic" and abs(x - y) <= tol) or False
            if grid:
                same = x == y
            rec("border", per=cfg["per"], inc=cls(x), outc=cls(y), same=bool(same), near=bool(near), cong=bool(cong))


if __name__ == "__main__":
    rt.main(handler)
