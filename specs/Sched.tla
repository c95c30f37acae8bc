------------------------------- MODULE Sched -------------------------------
(* The schedule of one rank (repast4py.schedule.Schedule and the part of
   SharedScheduleRunner that concerns one rank), as a set of pending events.

   Ticks and priorities are integers (the harness scales by 64).

   State s:
     tick    the current tick
     ctr     counter giving the scheduling order
     ev      id -> [at, idx, pt, pr, iv, kind]   every event accepted so far; at
             is the tick at which it is next due; kind is "evt" or "stop"
     live    ids still due to execute (not voided, not finished)
     voided  ids voided so far
     vat     ticks at which voided events were due: a schedule may spend an
             (empty) step on them
     ends    end events not yet executed
     stopNow TRUE once stop() was called: nothing after the current tick runs
     on      FALSE once execution has stopped
   Anchors: schedule.py Schedule._push_event, Schedule.execute,
   ScheduleGroup.sort/execute, RepeatingEvent.reschedule, void,
   SharedScheduleRunner.execute/schedule_stop/stop/schedule_end_event.     *)
EXTENDS Integers, FiniteSets, Sequences, TLC

Inf == 1000000000
Before0 == -1           \* any tick >= 0 is in the future at the start

FIRST == 0  LAST == 1  RANDOM == 2  BYPR == 3

S0 == [tick |-> Before0, ctr |-> 0, ev |-> <<>>, live |-> {}, voided |-> {}, vat |-> {},
       ends |-> {}, stopNow |-> FALSE, on |-> TRUE]

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Evts(s)  == {e \in s.live : s.ev[e].kind = "evt"}
Stops(s) == {e \in s.live : s.ev[e].kind = "stop"}
MinAt(s, S) == IF S = {} THEN Inf ELSE MinOf({s.ev[e].at : e \in S})
NextT(s) == MinAt(s, s.live)            \* of events and stops
NextE(s) == MinAt(s, Evts(s))
StopT(s) == IF s.stopNow THEN s.tick ELSE MinAt(s, Stops(s))
DueAt(s, t) == {e \in Evts(s) : s.ev[e].at = t}

(* ---- actions ---- *)
(* schedule_event / schedule_repeating_event (kind "evt"), schedule_stop (kind "stop") *)
Accepts(s, at) == at >= s.tick /\ at >= 0
Schedule(s, id, at, pt, pr, iv, kind) ==
  IF ~Accepts(s, at) THEN s      \* in the past: ignored
  ELSE [s EXCEPT !.ctr = @ + 1,
                 !.ev = (id :> [at |-> at, idx |-> s.ctr + 1, pt |-> pt, pr |-> pr, iv |-> iv, kind |-> kind]) @@ @,
                 !.live = @ \cup {id}]

ScheduleEnd(s, id) == [s EXCEPT !.ends = @ \cup {id}]

Void(s, id) == [s EXCEPT !.live = @ \ {id}, !.ends = @ \ {id}, !.voided = @ \cup {id},
                         !.vat = IF id \in s.live THEN @ \cup {s.ev[id].at} ELSE @]

(* within a tick, d has to execute before e *)
Precedes(s, d, e) ==
  LET D == s.ev[d]  E == s.ev[e] IN
  CASE D.pt = FIRST -> E.pt # FIRST \/ D.idx < E.idx
    [] D.pt = LAST  -> E.pt = LAST /\ D.idx < E.idx
    [] D.pt = RANDOM -> E.pt = LAST
    [] D.pt = BYPR  -> E.pt = LAST \/ (E.pt = BYPR /\ (D.pr < E.pr \/ (D.pr = E.pr /\ D.idx < E.idx)))

InOrder(s, e) == \A d \in DueAt(s, s.ev[e].at) \ {e} : ~Precedes(s, d, e)

(* The events that may execute next.  A stop takes effect at the end of its tick. *)
CanRun(s, e) == /\ s.on
                /\ e \in Evts(s)
                /\ s.ev[e].at = NextE(s)
                /\ s.ev[e].at <= StopT(s)
                /\ InOrder(s, e)

(* The effect of executing e at its tick, before what its callable does. *)
Run(s, e) ==
  LET E == s.ev[e] IN
  [s EXCEPT !.tick = E.at,
            !.ev[e].at = IF E.iv > 0 THEN @ + E.iv ELSE @,
            !.live = IF E.iv > 0 THEN @ ELSE @ \ {e}]

StopNow(s) == [s EXCEPT !.stopNow = TRUE]

(* everything up to the stop has run *)
CanFinish(s) == NextE(s) > StopT(s) \/ s.live = {}
Finish(s) == [s EXCEPT !.on = FALSE]

RunEnd(s, e) == [s EXCEPT !.ends = @ \ {e}]

(* invariant of every state *)
StateOk(s) == /\ s.live \subseteq DOMAIN s.ev
              /\ s.live \cap s.voided = {}
              /\ \A e \in s.live : s.ev[e].at >= s.tick
=============================================================================
