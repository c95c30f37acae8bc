"""Drives repast4py.schedule on one rank; see specs/SchedTrace.tla for the events."""
import rt
from mpi4py import MPI
from repast4py import schedule, random as rrandom
from repast4py.schedule import PriorityType, create_arg_evt

PT = {0: PriorityType.FIRST, 1: PriorityType.LAST, 2: PriorityType.RANDOM, 3: PriorityType.BY_PRIORITY}
LIMIT = 3000


class Clock:
    """The ticks of a program are numbers in units of 2^-sc (1/64 by default) after off, which floats represent exactly."""
    def __init__(self, prog):
        self.sc, self.off = 2.0 ** prog.get("sc", 6), prog.get("off", 0)

    def at(self, t):
        return t / self.sc + (self.off if t >= 0 else 0)

    def iv(self, t):
        return t / self.sc

    def num(self, t):
        if t < 0:
            return -1
        t = (t - self.off) * self.sc
        return int(t) if t == int(t) else -2


class Env:
    def __init__(self, prog, rec, sched, runner=None):
        self.rec, self.s, self.r = rec, sched, runner
        self.clock = Clock(prog)
        self.on = {}
        for o in prog["ops"]:
            self.on.setdefault((o["by"], o["occ"]), []).append(o["op"])
        self.evts, self.occ, self.n, self.done = {}, {}, 0, False

    def tick(self):
        return self.clock.num(self.r.tick() if self.r else self.s.tick)

    def fire(self, id):
        self.n += 1
        if self.n > LIMIT:
            raise RuntimeError("events do not end")
        self.rec("run", id=id, t=self.tick())
        c = self.occ[id] = self.occ.get(id, 0) + 1
        self.perform(self.on.get((id, c), ()))

    def end(self, id):
        self.mark()
        self.rec("runend", id=id)

    def mark(self):
        if not self.done:
            self.done = True
            self.rec("done")

    def perform(self, ops):
        for o in ops:
            k = o["k"]
            if k == "sched":
                f = create_arg_evt(self.fire, o["id"]) if o["id"] % 2 else (lambda i=o["id"]: self.fire(i))
                tgt = self.r or self.s
                kw = {}
                if o["pt"] != 2 or o["id"] % 3:
                    kw["priority_type"] = PT[o["pt"]]
                if o["pt"] == 3:
                    kw["priority"] = o["pr"] / 2
                if o["iv"] > 0:
                    e = tgt.schedule_repeating_event(self.clock.at(o["at"]), self.clock.iv(o["iv"]), f, **kw)
                else:
                    e = tgt.schedule_event(self.clock.at(o["at"]), f, **kw)
                self.evts[o["id"]] = e
                self.rec(**o)
            elif k == "stop":
                self.evts[o["id"]] = self.r.schedule_stop(self.clock.at(o["at"]))
                self.rec(**o)
            elif k == "stopnow":
                self.r.stop()
                self.rec(**o)
            elif k == "end":
                self.evts[o["id"]] = self.r.schedule_end_event(lambda i=o["id"]: self.end(i))
                self.rec(**o)
            elif k == "void":
                if o["id"] in self.evts:
                    self.evts[o["id"]].void()
                    self.rec(**o)


def handler(prog, rec, comm):
    rrandom.init(prog.get("seed", 1))
    mode = prog["mode"]
    if mode == "runner":
        r = schedule.init_schedule_runner(MPI.COMM_SELF)
        env = Env(prog, rec, r.schedule, r)
        env.perform(env.on.get((0, 0), ()))
        r.execute()
        env.mark()
        rec("fin")
    elif mode == "direct":
        s = schedule.Schedule()
        env = Env(prog, rec, s)
        for st in range(prog["steps"]):
            env.perform(env.on.get((0, st), ()))
            rec("next", t=env.clock.num(s.next_tick()))
            s.execute()
            rec("stepe", t=env.tick())
    elif mode == "orders":
        # the set of orders over many seeds; only one tick
        seen = set()
        init = [o["op"] for o in prog["ops"] if o["by"] == 0]
        ids = max(o["op"]["id"] for o in prog["ops"])
        on = [[o["op"] for o in prog["ops"] if o["by"] == i] for i in range(1, ids + 1)]
        for sd in range(prog["seeds"]):
            rrandom.init(sd + prog["seed"])
            r2 = rt.Rec()
            env = Env(prog, r2, schedule.Schedule())
            env.perform(env.on.get((0, 0), ()))
            while env.s.next_tick() != -1:
                env.s.execute()
            seen.add(tuple(e["id"] for e in r2.ev if e["k"] == "run"))
        rec("orders", init=init, on=on, seen=sorted(seen))


if __name__ == "__main__":
    rt.main(handler)
