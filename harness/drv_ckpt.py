"""Checkpoints of a schedule; see specs/CkptTrace.tla for the events."""
import os, warnings
import rt
import dill
from mpi4py import MPI
from repast4py import schedule, checkpoint, random as rrandom
from drv_sched import PT, Clock, LIMIT

_comms = {}


class Call:
    """an event as a class (as in the user guide)"""

    def __init__(self, env, id):
        self.env, self.id = env, id

    def __call__(self):
        self.env.fire(self.id)


class Stopped(Exception):
    pass


class Env:
    def __init__(self, prog, rank, comm, rec, ndraw):
        self.prog, self.rank, self.comm, self.rec = prog, rank, comm, rec
        self.clock = Clock(prog)
        self.on = {}
        for o in prog["ops"][rank]:
            self.on.setdefault((o["by"], o["occ"]), []).append(o["op"])
        self.evts, self.occ, self.n, self.done = {}, {}, 0, False
        self.draw = ndraw
        self.r = None

    def tick(self):
        return self.clock.num(self.r.tick())

    def fire(self, id):
        self.n += 1
        if self.n > LIMIT:
            raise RuntimeError("events do not end")
        if id >= 700 and id < 800:          # takes a checkpoint
            self.rec("run", r=self.rank, id=id, t=self.tick(), v=0)
            self.occ[id] = 1
            self.save(id - 700)
            return self.perform(self.on.get((id, 1), ()))
        v = int(rrandom.default_rng.integers(0, 1 << 20)) if id in self.draw else 0
        self.rec("run", r=self.rank, id=id, t=self.tick(), v=v)
        c = self.occ[id] = self.occ.get(id, 0) + 1
        self.perform(self.on.get((id, c), ()))

    def end(self, id):
        self.mark()
        self.rec("runend", r=self.rank, id=id, v=0)
        if id >= 980:
            self.save(id - 980 + 10)

    def mark(self):
        if not self.done:
            self.done = True
            self.rec("done", r=self.rank)

    def callable(self, id):
        if id >= 950:
            return (lambda: self.end(id)) if id % 2 else (lambda i=id: self.end(i))
        return Call(self, id) if id % 2 else (lambda i=id: self.fire(i))

    def meta(self, id):
        tag = self.prog["tags"].get(str(id), 0)
        m = {"id": id}
        if id % 2 and id < 950 and id % 4 == 1:
            m = {"id": lambda evt: evt.id}
        if tag:
            m["tag"] = "t%d" % tag
        elif id % 5 == 0:
            m["tag"] = checkpoint.DEFAULT_TAG
        return m

    def perform(self, ops):
        r = self.r
        for o in ops:
            k = o["k"]
            if k in ("sched", "end"):
                tag = self.prog["tags"].get(str(o["id"]), 0)
                if tag:
                    self.rec("tag", r=self.rank, id=o["id"], tag=tag)
            if k == "sched":
                f, m = self.callable(o["id"]), self.meta(o["id"])
                kw = dict(priority_type=PT[o["pt"]], metadata=m)
                if o["pt"] == 3:
                    kw["priority"] = o["pr"] / 2
                if o["iv"] > 0:
                    e = r.schedule_repeating_event(self.clock.at(o["at"]), self.clock.iv(o["iv"]), f, **kw)
                else:
                    e = r.schedule_event(self.clock.at(o["at"]), f, **kw)
                self.evts[o["id"]] = e
            elif k == "stop":
                self.evts[o["id"]] = r.schedule_stop(self.clock.at(o["at"]))
            elif k == "stopnow":
                r.stop()
            elif k == "end":
                self.evts[o["id"]] = r.schedule_end_event(self.callable(o["id"]), self.meta(o["id"]))
            elif k == "void":
                if o["id"] not in self.evts:
                    continue
                self.evts[o["id"]].void()
            self.rec(r=self.rank, **o)

    # ---- checkpoints
    def file(self, j):
        return os.path.join(os.environ["R4V_SCRATCH"], "ckp.%d.%d" % (os.getpid(), j))

    def save(self, j):
        c = checkpoint.Checkpoint()
        how = self.prog["how"]
        c.save_random()
        c.save_schedule()
        c.save("occ", dict(self.occ))
        q = {id(x[2]) for x in self.r.schedule.queue}
        c.save("stops", {i: e.order_idx for i, e in self.evts.items() if 900 <= i < 950 and id(e) in q})
        if how != "live" or j >= 10:
            with open(self.file(j), "wb") as f:
                dill.dump(c, f)
        self.prog.setdefault("mem", {})[(self.rank, j)] = c
        self.rec("save", r=self.rank, j=j, t=self.tick())

    def load(self, j):
        if self.prog["how"] == "live" and j < 10:
            return self.prog["mem"][(self.rank, j)]
        with open(self.file(j), "rb") as f:
            return dill.load(f)


def restore(env, o):
    """restore slot j in a fresh runner"""
    c = env.load(o["j"])
    c.restore_random()
    env.occ = c.restore("occ", dict)
    stops = {v: k for k, v in c.restore("stops", dict).items()}
    calls = o["tags"]
    ign = o["ign"]

    def create(meta):
        if meta["id"] in ign:
            return checkpoint.IGNORE_EVT
        return env.callable(meta["id"])

    def keep(meta, evt):
        if meta["__type"] == schedule.EvtType.STOP:
            env.evts[stops[evt.order_idx]] = evt
        else:
            env.evts[meta["id"]] = evt

    real, late = env.rec, rt.Rec()
    for i, t in enumerate(calls):
        kw = {}
        if t:
            kw["tag"] = "t%d" % t
        if i:
            kw["initialize"] = False
        if o["stops"]:
            kw["restore_stop_at"] = True
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            r = c.restore_schedule(env.comm, create, keep, **kw)
        env.r = r
        if i == 0:
            nq = len(r.schedule.queue)
            env.rec = late
            env.perform(o["mid"])           # events scheduled between two calls
            env.rec = real
            nq = len(r.schedule.queue) - nq
    env.rec("restore", r=env.rank, j=o["j"], tags=calls, ign=ign, stops=o["stops"], t=env.tick(),
            q=len(r.schedule.queue) - nq, cmp=o["cmp"] and not late.ev)
    for e in late.ev:
        env.rec(**e)
    env.perform(o["ops"][env.rank])
    if env.comm.Get_size() == 1 and not any(e[2].metadata["__type"] == schedule.EvtType.STOP for e in r.schedule.queue):
        # saved after its last stop
        env.perform([{"k": "stop", "id": 942, "at": max(env.tick(), 0) + 300}])


def run(env, how, limit):
    """how: "execute", or "step": Schedule.execute() again and again"""
    if how == "execute":
        env.r.execute()
        env.mark()
        env.rec("fin", r=env.rank)
    else:
        while env.r.go and env.r.schedule.next_tick() != -1 and limit > 0:
            env.r.schedule.execute()
            limit -= 1


def handler(prog, rec, comm):
    n = prog["cfg"]["n"]
    if n == 1:
        cm, rank = MPI.COMM_SELF, 0
    else:
        if n not in _comms:
            _comms[n] = comm.Split(0 if comm.Get_rank() < n else 1, comm.Get_rank())
        cm, rank = _comms[n], comm.Get_rank()
    if rank < n:
        draw = set(prog["draw"])
        rrandom.init(prog["seed"] + rank)
        env = Env(prog, rank, cm, rec, draw)
        env.r = schedule.init_schedule_runner(cm)
        env.perform(env.on.get((0, 0), ()))
        if prog["steps"]:                   # a checkpoint between two ticks
            for _ in range(prog["steps"]):
                if env.r.go:
                    env.r.schedule.execute()
            env.save(0)
            run(env, "step", 60)
        else:
            run(env, "execute", 0)
        for o in prog["restores"]:
            if (rank, o["j"]) not in prog.get("mem", {}):
                continue                    # no checkpoint was taken
            env = Env(prog, rank, cm, rec, draw)
            restore(env, o)
            run(env, o["how"], 60)
    if n > 1:
        comm.Barrier()


if __name__ == "__main__":
    rt.main(handler)
