----------------------------- MODULE SharedSched -----------------------------
(* The shared schedule: one Sched state per rank, advanced in lockstep.
   g is a sequence of Sched states (rank r is index r+1).
   Anchor: schedule.py SharedScheduleRunner.execute.                       *)
EXTENDS Sched

GlobalNext(g) == MinOf({NextE(g[r]) : r \in DOMAIN g})
GlobalStop(g) == MinOf({StopT(g[r]) : r \in DOMAIN g})

(* rank r may execute e: it is due there, and no rank still has an event of an earlier tick *)
CanRunShared(g, r, e) == CanRun(g[r], e) /\ g[r].ev[e].at = GlobalNext(g)
=============================================================================
