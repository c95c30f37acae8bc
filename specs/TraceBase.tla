----------------------------- MODULE TraceBase -----------------------------
(* Acceptance of recorded histories, with a total verdict.

   TRACE is an ndjson file, one history per line: [id, cfg, ev].  Every history
   is an independent chain of states (so TLC's workers share the work).  A step
   the specification does not allow prints one line
        BAD  <history index>  <event index>  <JSON set of violated clauses>
   and ends that history; every other history is still examined.  A clause is
   "<property ids>:<name>"; the prefix "*" credits whatever property is being
   checked (exception, crash or hang of the code under test).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS TInit(_),      \* cfg |-> initial state of the specification
          TStep(_, _)    \* state, event |-> [bad |-> set of clauses, s |-> next state]

VARIABLES tr_h, tr_i, tr_s

Hist == ndJsonDeserialize(IOEnv.TRACE)

TraceInit == /\ tr_h \in 1..Len(Hist)
             /\ tr_i = 0
             /\ tr_s = TInit(Hist[tr_h].cfg)

Crash(e) == [bad |-> {"*:" \o e.what}, s |-> 0]

TraceNext ==
  /\ tr_i < Len(Hist[tr_h].ev)
  /\ tr_h' = tr_h
  /\ LET e == Hist[tr_h].ev[tr_i + 1]
         r == IF e.k = "crash" THEN Crash(e) ELSE TStep(tr_s, e)
     IN IF r.bad = {}
        THEN tr_i' = tr_i + 1 /\ tr_s' = r.s
        ELSE /\ PrintT(<<"BAD", tr_h, tr_i + 1, ToJson(r.bad)>>)
             /\ tr_i' = Len(Hist[tr_h].ev) + 1
             /\ tr_s' = tr_s

TraceSpec == TraceInit /\ [][TraceNext]_<<tr_h, tr_i, tr_s>>

(* condition b holds, or clause c is violated *)
Ok(b, c) == IF b THEN {} ELSE {c}
=============================================================================
