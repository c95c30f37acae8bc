"""Runtime inside a driver process: runs programs, records events, journals progress.

argv: programs.ndjson outdir [first]   (one process, or every rank of an mpirun launch)
"""
import json, os, sys, traceback

_seen = {}


class Rec:
    def __init__(self):
        self.ev = []

    def __call__(self, k, **kw):
        kw["k"] = k
        self.ev.append(kw)


def main(handler):
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    rank = comm.Get_rank()
    size = comm.Get_size()
    progs, out, first = sys.argv[1], sys.argv[2], int(sys.argv[3])
    # one process of an unlaunched set writes under its own name
    tag = os.environ.get("R4V_PART", str(rank))
    f = open(os.path.join(out, "out.%s" % tag), "a")
    j = open(os.path.join(out, "jour.%s" % tag), "a")
    idx = -1
    with open(progs) as pf:
        for line in pf:
            idx += 1
            if idx < first:
                continue
            prog = json.loads(line)
            rec = Rec()
            j.write("B %d\n" % idx)
            j.flush()
            ok, why = True, ""
            try:
                handler(prog, rec, comm)
            except BaseException as e:   # noqa
                ok = False
                tb = traceback.extract_tb(e.__traceback__)
                why = "exception %s in %s: %s" % (type(e).__name__, tb[-1].name if tb else "?", str(e)[:100])
                sys.stderr.write("".join(traceback.format_exception(e))[-3000:])
            f.write(json.dumps({"h": idx, "ok": ok, "why": why, "ev": rec.ev}, separators=(",", ":"), default=_conv) + "\n")
            f.flush()
            if not ok and size > 1:
                sys.stderr.flush()
                comm.Abort(7)
    j.write("E\n")
    j.flush()
    f.close()


def _conv(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.bool_):
        return bool(o)
    raise TypeError(type(o))
