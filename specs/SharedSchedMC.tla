---------------------------- MODULE SharedSchedMC ----------------------------
(* The algorithm of SharedScheduleRunner.execute, one action per step of a rank:
   vote (allreduce MIN of the next ticks), execute the events of the tick one by
   one, vote again; a rank leaves when it was stopped in the executed tick.  The
   allreduce is modelled as it is: a rank can only leave the vote when all ranks
   that have not finished have voted -- a finished rank would block it.         *)
EXTENDS SharedSched

CONSTANTS Ranks, NEv, Ats, StopAt

VARIABLES g, phase, vote, nev, log, ended

vars == <<g, phase, vote, nev, log, ended>>

Init ==
  /\ nev = 0
  /\ g = [r \in 1..Ranks |-> Schedule(S0, 100 + r, StopAt, RANDOM, 0, 0, "stop")]
  /\ phase = [r \in 1..Ranks |-> "setup"]
  /\ vote = [r \in 1..Ranks |-> -1]
  /\ log = <<>>
  /\ ended = [r \in 1..Ranks |-> 0]

(* schedule before the start, or from an executing event *)
DoSched(r) == \E at \in Ats :
  /\ phase[r] \in {"setup", "event"} /\ nev < NEv
  /\ nev' = nev + 1
  /\ g' = [g EXCEPT ![r] = Schedule(@, nev + 1, at, RANDOM, 0, 0, "evt")]
  /\ UNCHANGED <<phase, vote, log, ended>>

Start(r) == /\ phase[r] = "setup"
            /\ phase' = [phase EXCEPT ![r] = "vote"]
            /\ UNCHANGED <<g, vote, nev, log, ended>>

Vote(r) == /\ phase[r] = "vote"
           /\ vote' = [vote EXCEPT ![r] = NextT(g[r])]
           /\ phase' = [phase EXCEPT ![r] = "wait"]
           /\ UNCHANGED <<g, nev, log, ended>>

(* all ranks have voted: each continues with the minimum *)
Reduce == /\ \A r \in 1..Ranks : phase[r] = "wait"
          /\ LET m == MinOf({vote[r] : r \in 1..Ranks})
             IN phase' = [r \in 1..Ranks |-> IF vote[r] = m /\ m # Inf THEN "exec" ELSE "check"]
          /\ UNCHANGED <<g, vote, nev, log, ended>>

ExecEvt(r) == \E e \in Evts(g[r]) :
  /\ phase[r] \in {"exec", "event"}
  /\ g[r].ev[e].at = vote[r]
  /\ CanRun(g[r], e)
  /\ g' = [g EXCEPT ![r] = Run(@, e)]
  /\ log' = Append(log, [r |-> r, t |-> vote[r]])
  /\ phase' = [phase EXCEPT ![r] = "event"]
  /\ UNCHANGED <<vote, nev, ended>>

ExecDone(r) ==
  /\ phase[r] \in {"exec", "event"}
  /\ DueAt(g[r], vote[r]) = {}
  /\ LET st == {e \in Stops(g[r]) : g[r].ev[e].at = vote[r]} IN
     g' = [g EXCEPT ![r] = IF st = {} THEN @ ELSE [@ EXCEPT !.live = @ \ st, !.tick = vote[r], !.stopNow = TRUE]]
  /\ phase' = [phase EXCEPT ![r] = "check"]
  /\ UNCHANGED <<vote, nev, log, ended>>

Check(r) == /\ phase[r] = "check"
            /\ phase' = [phase EXCEPT ![r] = IF g[r].stopNow THEN "end" ELSE "vote"]
            /\ ended' = [ended EXCEPT ![r] = IF g[r].stopNow THEN @ + 1 ELSE @]
            /\ UNCHANGED <<g, vote, nev, log>>

Next == Reduce \/ \E r \in 1..Ranks : DoSched(r) \/ Start(r) \/ Vote(r) \/ ExecEvt(r) \/ ExecDone(r) \/ Check(r)
Steps == Reduce \/ \E r \in 1..Ranks : Start(r) \/ Vote(r) \/ ExecEvt(r) \/ ExecDone(r) \/ Check(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)

(* C04 *)
Lockstep == [][\A r \in 1..Ranks : Len(log') > Len(log) /\ log'[Len(log')].r = r
               => log'[Len(log')].t = GlobalNext(g)]_vars
TicksOrdered == \A j, k \in 1..Len(log) : j < k => log[j].t <= log[k].t
NothingAfterStop == \A j \in 1..Len(log) : log[j].t <= StopAt
AllBeforeStopRan == (\A r \in 1..Ranks : phase[r] = "end") => \A r \in 1..Ranks : NextE(g[r]) > StopAt
Termination == <>(\A r \in 1..Ranks : phase[r] = "end" /\ ended[r] = 1)
=============================================================================
