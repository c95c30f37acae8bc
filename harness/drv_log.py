"""Drives ReducingDataSet and TabularLogger; see specs/LogTrace.tla.

Everything is written below a scratch directory of the driver."""
import csv, os, shutil, tempfile
from dataclasses import make_dataclass
import rt
from mpi4py import MPI
import numpy as np
from repast4py import logging

BASE = os.environ["R4V_SCRATCH"]
SCALE = 64
OPS = dict(sum=MPI.SUM, min=MPI.MIN, max=MPI.MAX)
TY = dict(int=int, float=float, i32=np.int32, f32=np.float32, i64=np.int64)


def handler(prog, rec, comm):
    n = prog["cfg"]["n"]
    r = comm.Get_rank()
    sub = comm.Split(0 if r < n else 1, r)
    home = os.getcwd()
    try:
        if r < n:
            d = tempfile.mkdtemp(prefix="log.", dir=BASE) if r == 0 else None
            d = sub.bcast(d, 0)
            os.chdir(d)
            try:
                one(prog, rec, sub, r, d)
                sub.Barrier()
            finally:
                os.chdir(home)
                if r == 0:
                    shutil.rmtree(d, ignore_errors=True)
    finally:
        sub.Free()


def names(path, k):
    """path, path_1, path_2 .. with the number before the suffix"""
    d, b = os.path.split(path)
    i = b.rfind(".")
    st, su = (b[:i], b[i:]) if i > 0 else (b, "")
    return [path] + [os.path.join(d, "%s_%d%s" % (st, j, su)) for j in range(1, k)]


class Source:
    def __init__(self, name, ty):
        self._n, self._t, self.v = name, np.dtype(ty), 0

    name = property(lambda s: s._n)
    value = property(lambda s: s.v)
    dtype = property(lambda s: s._t)


def listing(d):
    out = []
    for a, ds, fs in os.walk(d):
        out += [os.path.relpath(os.path.join(a, x), d) for x in ds + fs]
    return out


def num(x, ty="f64"):
    """in units of 1/SCALE; a column of a type reads back as that type"""
    v = float(np.float32(x) if ty == "f32" else x) * SCALE
    return int(v) if v == int(v) and abs(v) < 2 ** 31 else 2 ** 30 + 1


def text(v):
    return "" if v is None else v if isinstance(v, str) else repr(v) if isinstance(v, float) else str(v)


def one(prog, rec, comm, r, home):
    c = prog["cfg"]
    if r == 0:
        for p in prog["pre"]:
            if os.path.dirname(p):
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("old " + p)
    comm.Barrier()
    lg, mine, paths = [], [], []
    for i, (g, q) in enumerate(zip(c["lg"], prog["lg"])):
        path = q["path"]
        if q["abs"]:
            path = os.path.join(home, path)
        taken = listing(home)
        comm.Barrier()
        dl = q["delim"]
        if g["kind"] == "red":
            tys = [TY[t] for t in q["types"]]
            if q["how"] == "dc":
                cls = make_dataclass("D", [("f%d" % k, t) for k, t in enumerate(tys)])
                obj = cls(*[t() for t in tys])
                loggers = []
                for k in range(len(tys)):
                    nm = g["head"][k + 1]
                    loggers += logging.create_loggers(obj, OPS[g["ops"][k]], r, {"f%d" % k: None if nm == "f%d" % k else nm})

                def put(k, v, obj=obj, tys=tys):
                    setattr(obj, "f%d" % k, tys[k](v))
            elif q["how"] == "all":
                cls = make_dataclass("D", [(g["head"][k + 1], t) for k, t in enumerate(tys)])
                obj = cls(*[t() for t in tys])
                loggers = logging.create_loggers(obj, OPS[g["ops"][0]], r)

                def put(k, v, obj=obj, tys=tys, hd=g["head"]):
                    setattr(obj, hd[k + 1], tys[k](v))
            else:
                src = [Source(g["head"][k + 1], t) for k, t in enumerate(tys)]
                loggers = [logging.ReducingDataLogger(s, OPS[o], r) for s, o in zip(src, g["ops"])]

                def put(k, v, src=src, tys=tys):
                    src[k].v = tys[k](v)
            kw = {}
            if q["defbuf"] == 0:
                kw["buffer_size"] = g["buf"]
            if dl != ",":
                kw["delimiter"] = dl
            lg.append(logging.ReducingDataSet(loggers, comm, path, **kw))
            mine.append(put)
        else:
            kw = {} if dl == "," else dict(delimiter=dl)
            lg.append(logging.TabularLogger(comm, path, g["head"], **kw))
            mine.append(None)
        comm.Barrier()
        if r == 0:
            new = [x for x in listing(home) if x not in taken and os.path.isfile(os.path.join(home, x))]
            name = new[0] if len(new) == 1 else "?%d" % len(new)
            rec("open", i=i + 1, name=name, cand=names(q["path"], 18), taken=taken)
            paths.append(os.path.join(home, name))

    def look(i):
        comm.Barrier()
        rec("meet")
        if r == 0:
            g, q = c["lg"][i], prog["lg"][i]
            with open(paths[i], newline="") as f:
                rows = list(csv.reader(f, delimiter=q["delim"]))
            head, rows = (rows[0] if rows else []), rows[1:]
            if g["kind"] == "red":
                rows = [[num(x, t) for x, t in zip(row, ['f64'] + q['types'] + ['f64'] * len(row))] for row in rows]
            rec("file", i=i + 1, head=head, rows=rows)
        comm.Barrier()

    for o in prog["ops"]:
        k, i = o["k"], o.get("i", 0)
        if k == "logs":
            rows = []
            if c["lg"][i]["kind"] == "red":
                for tick, vals in zip(o["ticks"], o["vals"][r]):
                    for j, v in enumerate(vals):
                        mine[i](j, v / SCALE if prog["lg"][i]["types"][j][0] == "f" else v)
                    lg[i].log(tick / SCALE)
                    rows.append([tick] + [v if prog["lg"][i]["types"][j][0] == "f" else v * SCALE for j, v in enumerate(vals)])
            else:
                for row in o["vals"][r]:
                    lg[i].log_row(*row)
                    rows.append([text(v) for v in row])
            rec("logs", r=r, i=i + 1, rows=rows)
        elif k in ("write", "close"):
            rec("meet")
            getattr(lg[i], k)()
            rec("write", i=i + 1)
        elif k == "look":
            look(i)
    for i in range(len(lg)):
        look(i)
    comm.Barrier()
    if r == 0:
        bad = []
        for p in prog["pre"]:
            with open(os.path.join(home, p)) as f:
                if f.read() != "old " + p:
                    bad.append(p)
        rec("foreign", touched=bad)


if __name__ == "__main__":
    rt.main(handler)
