------------------------------- MODULE Space -------------------------------
(* One rank's grid or continuous space: which agents it contains, where they
   are, who is found where.

   Coordinates are integers.  For a grid they are the cell indices; for a
   continuous space the harness multiplies by 32 (all its inputs are multiples
   of 1/8), and an observed coordinate 1e-8 below a multiple of 1/8 is one less:
   the top coordinate of sticky borders is therefore 32*max - 1.

   Configuration c:  kind "grid" | "cspace",  per "sticky" | "periodic",
   occ "multi" | "single",  lo, hi (3-tuples; hi exclusive; hi = lo for an
   unused dimension),  types (id -> agent type).
   State s: ag agents contained, loc id -> point, arr id -> arrival number, n.

   Anchors: space.h BaseSpace, grid.h/cspace.h move, occupancy.h, borders.h,
   SpatialTree.h getObjectsWithin.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dims == 1..3
Used(c, d) == c.hi[d] > c.lo[d]

Sticky1(c, d, x) == LET top == c.hi[d] - 1 IN IF x < c.lo[d] THEN c.lo[d] ELSE IF x > top THEN top ELSE x
Periodic1(c, d, x) == c.lo[d] + ((x - c.lo[d]) % (c.hi[d] - c.lo[d]))
Border1(c, d, x) == IF ~Used(c, d) THEN 0
                    ELSE IF c.per = "periodic" THEN Periodic1(c, d, x) ELSE Sticky1(c, d, x)
Border(c, p) == [d \in Dims |-> Border1(c, d, p[d])]
Inside(c, p) == \A d \in Dims : IF Used(c, d) THEN c.lo[d] <= p[d] /\ p[d] < c.hi[d] ELSE p[d] = 0

S0 == [ag |-> {}, loc |-> <<>>, arr |-> <<>>, n |-> 0]

Located(s) == DOMAIN s.loc
At(s, q) == {a \in Located(s) : s.loc[a] = q}
Drop(f, a) == [x \in (DOMAIN f) \ {a} |-> f[x]]

Add(s, a) == [s EXCEPT !.ag = @ \cup {a}]
Remove(s, a) == [s EXCEPT !.ag = @ \ {a}, !.loc = Drop(@, a), !.arr = Drop(@, a)]

CanMove(c, s, a, p) == a \in s.ag
Blocked(c, s, a, p) == c.occ = "single" /\ At(s, Border(c, p)) \ {a} # {}
Move(c, s, a, p) ==
  LET q == Border(c, p) IN
  IF Blocked(c, s, a, p) \/ (a \in Located(s) /\ s.loc[a] = q) THEN s
  ELSE [s EXCEPT !.loc = (a :> q) @@ @, !.arr = (a :> s.n + 1) @@ @, !.n = @ + 1]

(* the agents at q in order of arrival *)
RECURSIVE ByArrival(_, _)
ByArrival(s, A) == IF A = {} THEN <<>>
                   ELSE LET f == CHOOSE a \in A : \A b \in A : s.arr[a] <= s.arr[b]
                        IN <<f>> \o ByArrival(s, A \ {f})
AgentsAt(s, q) == ByArrival(s, At(s, q))

InBox(c, p, lo, hi) == \A d \in Dims : Used(c, d) => lo[d] <= p[d] /\ p[d] < hi[d]
Within(c, s, lo, hi) == {a \in Located(s) : InBox(c, s.loc[a], lo, hi)}

(* ---- invariants of every state ---- *)
StateOk(c, s) == /\ Located(s) \subseteq s.ag
                 /\ DOMAIN s.arr = Located(s)
                 /\ \A a \in Located(s) : Inside(c, s.loc[a])
                 /\ c.occ = "single" => \A a, b \in Located(s) : s.loc[a] = s.loc[b] => a = b
=============================================================================
