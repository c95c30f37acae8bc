-------------------------- MODULE SharedSchedTrace --------------------------
(* Histories of a shared schedule: the events of Sched, each with its rank r (0-based),
   in the order given by a global logical clock.                                     *)
EXTENDS SharedSched, TraceBase

SSInit(cfg) == [r \in 1..cfg.ranks |-> S0]

RunCl(g, r, e) ==
  LET s == g[r] IN
  IF e.id \notin DOMAIN s.ev THEN {"C04,C01:event scheduled in the past executed"}
  ELSE IF e.id \notin s.live THEN {"C04,C01,C03:event executed again, or after being voided"}
  ELSE LET E == s.ev[e.id] IN
       Ok(e.t = E.at /\ E.at = NextE(s), "C04,C01:executed at a tick at which it is not the next due event")
       \cup Ok(E.at = GlobalNext(g), "C04:ran ahead: another rank still has events of an earlier tick")
       \cup Ok(E.at <= GlobalStop(g), "C04:event executed after the stop tick")
       \cup Ok(s.on, "C04:event executed after the end of execution")
       \cup Ok(InOrder(s, e.id), "C02:order within the tick")

SSStep(g, e) ==
  LET r == e.r + 1
      upd(x) == [g EXCEPT ![r] = x]
      s == g[r]
  IN
  CASE e.k = "sched" -> [bad |-> {}, s |-> upd(Schedule(s, e.id, e.at, e.pt, e.pr, e.iv, "evt"))]
    [] e.k = "stop"  -> [bad |-> {}, s |-> upd(Schedule(s, e.id, e.at, RANDOM, 0, 0, "stop"))]
    [] e.k = "stopnow" -> [bad |-> {}, s |-> upd(StopNow(s))]
    [] e.k = "end"   -> [bad |-> {}, s |-> upd(ScheduleEnd(s, e.id))]
    [] e.k = "void"  -> [bad |-> {}, s |-> upd(Void(s, e.id))]
    [] e.k = "run"   -> [bad |-> RunCl(g, r, e), s |-> IF e.id \in DOMAIN s.ev THEN upd(Run(s, e.id)) ELSE g]
    [] e.k = "done"  -> [bad |-> Ok(CanFinish(s), "C04:execution ended before events due by the stop tick ran")
                                 \cup Ok(StopT(s) < Inf, "C04:execution ended without a stop")
                                 \cup Ok(GlobalNext(g) >= StopT(s), "C04:a rank stopped while another had events of an earlier tick"),
                         s |-> upd(Finish(s))]
    [] e.k = "runend" -> [bad |-> Ok(~s.on, "C04:end event executed before the end")
                                  \cup Ok(e.id \in s.ends, "C04:end event executed twice or after being voided"),
                          s |-> upd(RunEnd(s, e.id))]
    [] e.k = "fin"   -> [bad |-> Ok(s.ends = {}, "C04:end event not executed"), s |-> g]
=============================================================================
