"""Like drv_shared_sched, for one program in which some ranks have nothing scheduled (and so never stop
by themselves): when the other ranks have finished, the run is aborted."""
import json, os, sys, time
from mpi4py import MPI
import rt
from repast4py import schedule, random as rrandom
from drv_sched import Env
from drv_shared_sched import SRec

comm = MPI.COMM_WORLD
rank, out = comm.Get_rank(), sys.argv[2]
prog = json.loads(open(sys.argv[1]).readline())


def note(ev):
    with open(os.path.join(out, "out.%d" % rank), "a") as f:
        f.write(json.dumps({"h": 0, "ok": True, "why": "", "ev": ev}) + "\n")
    with open(os.path.join(out, "jour.%d" % rank), "a") as f:
        f.write("E\n")
    open(os.path.join(out, "fin.%d" % rank), "w").close()


with open(os.path.join(out, "jour.%d" % rank), "a") as f:
    f.write("B 0\n")
rrandom.init(prog["seed"])
r = schedule.init_schedule_runner(comm)
rec = rt.Rec()
env = Env(dict(ops=prog["ops"][rank]), SRec(rec, rank), r.schedule, r)
env.perform(env.on.get((0, 0), ()))
if not prog["ops"][rank]:
    note([])
comm.Barrier()
r.execute()
env.mark()
env.rec("fin")
note(rec.ev)
while not all(os.path.exists(os.path.join(out, "fin.%d" % k)) for k in range(comm.Get_size())):
    time.sleep(.01)
os._exit(0)
