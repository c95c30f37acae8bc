"""Drives SharedScheduleRunner on several ranks; events ordered by a global logical clock."""
import fcntl, os, random as pyrandom, time
import rt
from mpi4py import MPI
from repast4py import schedule, random as rrandom
from drv_sched import Env

_comms = {}
_fd = None


def clock():
    global _fd
    if _fd is None:
        _fd = os.open(os.path.join(os.environ["R4V_SCRATCH"], "clock"), os.O_RDWR | os.O_CREAT)
    fcntl.flock(_fd, fcntl.LOCK_EX)
    try:
        b = os.pread(_fd, 8, 0)
        v = int.from_bytes(b, "little") + 1
        os.pwrite(_fd, v.to_bytes(8, "little"), 0)
    finally:
        fcntl.flock(_fd, fcntl.LOCK_UN)
    return v


class SRec:
    def __init__(self, rec, rank):
        self.rec, self.rank = rec, rank

    def __call__(self, k, **kw):
        self.rec(kw.pop("k", k), r=self.rank, c=clock(), **kw)


def handler(prog, rec, comm):
    n = prog["cfg"]["ranks"]
    if n not in _comms:
        _comms[n] = comm.Split(0 if comm.Get_rank() < n else 1, comm.Get_rank())
    if comm.Get_rank() < n:
        c = _comms[n]
        rank = c.Get_rank()
        rrandom.init(prog["seed"])
        slow = pyrandom.Random(prog["seed"] * 10 + rank)
        r = schedule.init_schedule_runner(c)
        env = Env(dict(prog, ops=prog["ops"][rank]), SRec(rec, rank), r.schedule, r)
        base = env.fire

        def fire(id):
            if slow.random() < prog["slow"][rank]:
                time.sleep(slow.random() * 0.001)
            base(id)
        env.fire = fire
        env.perform(env.on.get((0, 0), ()))
        r.execute()
        env.mark()
        env.rec("fin")
    comm.Barrier()


if __name__ == "__main__":
    rt.main(handler)
