----------------------------- MODULE SchedTrace -----------------------------
(* Traces of one rank's schedule.  Events:
   sched id at pt pr iv | stop id at | stopnow | end id | void id
   run id t            an event's callable started, runner.tick() = t
   next t              Schedule.next_tick(), -1 when empty (direct mode)
   stepe t             Schedule.execute() returned, Schedule.tick = t (direct mode)
   done                SharedScheduleRunner.execute() has begun to execute end events
   runend id           an end event's callable started
   fin                 SharedScheduleRunner.execute() returned
   orders prog seen    the set of orders the code produced for prog over many seeds *)
EXTENDS Sched, TraceBase

SInit(cfg) == S0

RunClauses(s, e) ==
  IF e.id \notin DOMAIN s.ev THEN {"C01:event scheduled in the past executed"}
  ELSE LET E == s.ev[e.id]
           p == IF E.iv > 0 THEN "C01,C03:" ELSE "C01:"
       IN IF e.id \notin s.live
          THEN {IF e.id \in s.voided THEN "C03:voided event executed" ELSE "C01:one-time event executed again"}
          ELSE Ok(e.t = E.at, p \o "executed at a tick at which it is not due")
               \cup Ok(E.at = NextE(s), "C01,C03:an event of an earlier tick was skipped")
               \cup Ok(E.at <= StopT(s), "C01,C04:event executed after the stop tick")
               \cup Ok(s.on, "C01,C04:event executed after the end of execution")
               \cup Ok(InOrder(s, e.id), "C02:order within the tick")
               \cup Ok(StateOk(s), "C01:state invariant")

RECURSIVE ApplyOps(_, _)
ApplyOps(s, ops) ==
  IF ops = <<>> THEN s
  ELSE LET o == Head(ops) IN
       ApplyOps(CASE o.k = "sched" -> Schedule(s, o.id, o.at, o.pt, o.pr, o.iv, "evt")
                  [] o.k = "void" -> Void(s, o.id), Tail(ops))

(* every order in which the events of a program can execute *)
RECURSIVE Orders(_, _)
Orders(s, on) ==
  LET D == {e \in s.live : CanRun(s, e)} IN
  IF D = {} THEN {<<>>}
  ELSE UNION {{<<e>> \o r : r \in Orders(ApplyOps(Run(s, e), on[e]), on)} : e \in D}

OrdersClauses(e) ==
  LET A == Orders(ApplyOps(S0, e.init), e.on)
      Z == {e.seen[j] : j \in 1..Len(e.seen)}
      Same(a, b) == Len(a) = Len(b) /\ {a[j] : j \in 1..Len(a)} = {b[j] : j \in 1..Len(b)}
  IN Ok(\A z \in Z : \E a \in A : Same(a, z), "C01:an event of the tick lost or repeated")
     \cup Ok(Z \subseteq A, "C02:an order the priorities forbid")
     \cup Ok(A \subseteq Z, "C02:a placement of RANDOM events that never occurs")

SStep(s, e) ==
  CASE e.k = "sched" -> [bad |-> {}, s |-> Schedule(s, e.id, e.at, e.pt, e.pr, e.iv, "evt")]
    [] e.k = "stop"  -> [bad |-> {}, s |-> Schedule(s, e.id, e.at, RANDOM, 0, 0, "stop")]
    [] e.k = "stopnow" -> [bad |-> {}, s |-> StopNow(s)]
    [] e.k = "end"   -> [bad |-> {}, s |-> ScheduleEnd(s, e.id)]
    [] e.k = "void"  -> [bad |-> {}, s |-> Void(s, e.id)]
    [] e.k = "run"   -> [bad |-> RunClauses(s, e), s |-> IF e.id \in DOMAIN s.ev THEN Run(s, e.id) ELSE s]
    [] e.k = "next"  -> [bad |-> Ok(\/ e.t = NextT(s) \/ (e.t = -1 /\ s.live = {})
                                    \/ (e.t \in s.vat /\ e.t < NextT(s)), "C01,C03:next tick"), s |-> s]
    [] e.k = "stepe" -> [bad |-> Ok(NextE(s) > e.t, "C01,C03:an event of the executed tick did not run")
                                 \cup Ok(e.t \in {s.tick} \cup s.vat, "C01:current tick"),
                         s |-> [s EXCEPT !.tick = e.t]]
    [] e.k = "done"  -> [bad |-> Ok(CanFinish(s), "C01,C03,C04:execution ended before events due by the stop tick ran"),
                         s |-> Finish(s)]
    [] e.k = "runend" -> [bad |-> Ok(~s.on, "C04:end event executed before the end")
                                  \cup Ok(e.id \in s.ends, "C01,C03,C04:end event executed twice or after being voided"),
                          s |-> RunEnd(s, e.id)]
    [] e.k = "fin"   -> [bad |-> Ok(s.ends = {}, "C01,C04:end event not executed")
                                 \cup Ok(~s.on, "*:trace without end"), s |-> s]
    [] e.k = "orders" -> [bad |-> OrdersClauses(e), s |-> s]
=============================================================================
