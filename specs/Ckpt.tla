-------------------------------- MODULE Ckpt --------------------------------
(* Saving and restoring the schedule of one rank (checkpoint.py).

   Saved(s) is what a checkpoint holds; Restored(v, keep, stops) the schedule a
   new runner has after restore_schedule, where keep are the ids whose tag was
   asked for and whose callable was not IGNORE_EVT, and stops says whether stops
   are restored.  Events keep their due tick, priority, interval and scheduling
   order; voided events are not part of a checkpoint.

   ImplSave / ImplRestore are the algorithm of the code: a list of event data in
   the (arbitrary) order of the heap, rescheduled one after another with the
   counter set to a single value each, then the counter set to the saved count.
   Anchors: Checkpoint.save_schedule, _to_evt_data, restore_schedule, _schedule_evt. *)
EXTENDS Sched

(* a stop that is due at the current tick was executed with it *)
OldStops(s) == {e \in Stops(s) : s.ev[e].at <= s.tick}

Saved(s) == [tick |-> s.tick, ctr |-> s.ctr, ev |-> s.ev, voided |-> s.voided,
             live |-> s.live \ OldStops(s), ends |-> s.ends, over |-> s.stopNow \/ OldStops(s) # {}]

Restored(v, keep, stops) ==
  LET L == {e \in v.live : IF v.ev[e].kind = "stop" THEN stops ELSE e \in keep} IN
  [S0 EXCEPT !.tick = v.tick, !.ctr = v.ctr, !.ev = v.ev, !.live = L,
             !.ends = v.ends \cap keep, !.voided = v.voided]

(* between ticks: nothing of the current tick is left *)
AtTickEnd(s) == DueAt(s, s.tick) = {} /\ s.on

(* what decides every future step is the same *)
SameFuture(s, t) == /\ s.live \ OldStops(s) = t.live
                    /\ \A e \in t.live : s.ev[e] = t.ev[e]
                    /\ s.tick = t.tick /\ s.ctr = t.ctr /\ s.ends = t.ends

(* ---- the algorithm ---- *)
Orderings(S) == {f \in [1..Cardinality(S) -> S] : \A x, y \in DOMAIN f : f[x] = f[y] => x = y}
ImplSave(s, order) == [tick |-> s.tick, last |-> s.ctr,
                       evts |-> [j \in DOMAIN order |-> [id |-> order[j]] @@ s.ev[order[j]]]]

RECURSIVE Push(_, _, _, _, _)
Push(t, evts, keep, stops, j) ==
  IF j > Len(evts) THEN t
  ELSE LET d == evts[j]
           want == IF d.kind = "stop" THEN stops ELSE d.id \in keep
           one == [t EXCEPT !.ctr = d.idx - 1]          \* a counter that yields d.idx
       IN Push(IF want THEN Schedule(one, d.id, d.at, d.pt, d.pr, d.iv, d.kind) ELSE t, evts, keep, stops, j + 1)

(* several calls, one for each tag: the first one initializes; at the end of every
   call the counter continues behind the saved and the current count *)
RECURSIVE Calls(_, _, _, _)
Calls(t, sv, keeps, stops) ==
  IF keeps = <<>> THEN t
  ELSE LET p == Push(t, sv.evts, Head(keeps), stops /\ Len(keeps) = 1, 1)
       IN Calls([p EXCEPT !.ctr = IF sv.last > t.ctr THEN sv.last ELSE t.ctr], sv, Tail(keeps), stops)
ImplRestore(sv, keeps, stops) == Calls([S0 EXCEPT !.tick = sv.tick], sv, keeps, stops)
=============================================================================
