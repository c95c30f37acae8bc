-------------------------------- MODULE CtxCk --------------------------------
(* Checkpoints of a context: what is saved on the ranks, and the state a new
   context has when agents, spaces and networks were restored to it.

   so     rank -> its agents in the order they were saved
   sv     slot -> the state that was saved
   rst    2 after restoring, 1 after the next synchronization, then 0

   Anchors: checkpoint.py save_agents .. restore_network, NetworkRestorer.     *)
EXTENDS Ctx

WithSlots(s) == [so |-> None, sv |-> None, rst |-> 0] @@ s

(* each rank knows the same of an edge between ranks, or one of them has just added it *)
Agreed(s, i, e) ==
  LET A == s.own[e[1]]
      B == s.own[e[2]]
      new(r) == \E x \in s.ch[i][r] : x[1] = e /\ x[2] = "a"
      a1 == Val(s, i, A, e)
      b1 == Val(s, i, B, e) IN
  \/ A = B \/ a1 = b1
  \/ a1 = <<>> /\ new(B) /\ ~\E x \in s.ch[i][A] : x[1] = e
  \/ b1 = <<>> /\ new(A) /\ ~\E x \in s.ch[i][B] : x[1] = e
Savable(s) == /\ s.full
              /\ \A i \in Nets(s.c) : \A e \in Edges(s, i) : Both(s, e) /\ Agreed(s, i, e)

SaveTo(s, k) == IF ~Savable(s) THEN [s EXCEPT !.dom = FALSE]
                ELSE [s EXCEPT !.sv = (k :> [x \in DOMAIN s \ {"sv"} |-> s[x]]) @@ @]

(* The agents of a rank are added in the order they were saved.  A rank asks for the other
   ends of its edges: they are requested ghosts.  All edges are new, and so shared by the
   next synchronization.  Buffers are filled by it.                                      *)
Restored(s, order) ==
  LET c == s.c
      far == [r \in Ranks(c) |-> UNION {{e[1], e[2]} : e \in UNION {DOMAIN s.ed[i][r] : i \in Nets(c)}} \ Locals(s, r)] IN
  [s EXCEPT !.ls = order, !.arr = [r \in Ranks(c) |-> {}],
            !.ch = [i \in Nets(c) |-> [r \in Ranks(c) |-> {<<e, "a">> : e \in DOMAIN s.ed[i][r]}]],
            !.req = {<<r, u>> \in Ranks(c) \X Agents(s) : u \in far[r]},
            !.gh = [r \in Ranks(c) |-> [u \in far[r] |-> [st |-> {s.st[u]}, own |-> s.own[u]]]],
            !.buf = [i \in Spaces(c) |-> [r \in Ranks(c) |-> None]],
            !.rst = 2, !.full = TRUE]

RestoreFrom(s, k) == LET t == s.sv[k] IN [sv |-> s.sv] @@ Restored(t, t.so)
=============================================================================
