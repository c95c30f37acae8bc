------------------------------- MODULE CkptMC -------------------------------
(* SchedMC with a checkpoint: saved after any tick, restored at any later point
   (also after a restored run has gone on, been saved and restored again).  The
   log of a restored run continues the log at the time of saving, so that the
   invariants of SchedMC speak about the concatenated history.               *)
EXTENDS SchedMC, Ckpt

CONSTANTS NSave, NRestore
VARIABLES sv, nsave, nrest
cvars == <<vars, sv, nsave, nrest>>

None == [none |-> TRUE]
CInit == Init /\ sv = None /\ nsave = 0 /\ nrest = 0

DoSave == /\ s.on /\ nsave < NSave /\ AtTickEnd(s)
          /\ sv' = [v |-> Saved(s), log |-> log, nev |-> nev, nops |-> nops]
          /\ nsave' = nsave + 1
          /\ UNCHANGED <<vars, nrest>>

DoRestore == \E stops \in BOOLEAN :
          /\ nrest < NRestore /\ sv # None
          /\ s' = Restored(sv.v, 1..99, stops)
          /\ log' = sv.log /\ nev' = sv.nev /\ nops' = sv.nops /\ cur' = 0 /\ fin' = FALSE
          /\ nrest' = nrest + 1
          /\ UNCHANGED <<prog, sv, nsave>>

CNext == (Next /\ UNCHANGED <<sv, nsave, nrest>>) \/ DoSave \/ DoRestore
CSpec == CInit /\ [][CNext]_cvars

(* C23: what is restored has the same future *)
FutureKept == AtTickEnd(s) => SameFuture(s, Restored(Saved(s), DOMAIN s.ev \cup s.ends, TRUE))

(* C23: the algorithm restores exactly that, whatever order the heap has, and however the events are split by tags *)
ImplOk == (AtTickEnd(s) /\ nrest = 0) =>
  LET v == Saved(s) IN
  \A o \in Orderings(v.live) : \A A \in SUBSET v.live, stops \in BOOLEAN :
    LET w == ImplSave(s, o)
        x == Restored(v, v.live, stops)
        y == ImplRestore(w, <<A, v.live \ A>>, stops)
        z == ImplRestore(w, <<A>>, stops)
        q == Restored(v, A, stops)
        same(a, b) == a.live = b.live /\ a.tick = b.tick /\ a.ctr = b.ctr /\ \A e \in a.live : a.ev[e] = b.ev[e]
    IN same(x, y) /\ same(q, z)

VoidedStay == [][\A id \in s.voided : Len(log') = Len(log) + 1 => log'[Len(log')].id # id]_cvars
=============================================================================
