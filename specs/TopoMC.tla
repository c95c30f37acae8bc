------------------------------- MODULE TopoMC -------------------------------
(* The arrangement of Topo tiles the space, and the slices sent in each direction
   amount to exactly the buffers, for every small configuration.                 *)
EXTENDS Topo, TLC
CONSTANTS MaxP, MaxExt, MaxB, MaxDims
VARIABLES c, b, r, todo, sent
vars == <<c, b, r, todo, sent>>

Cfgs == UNION {[dims : {n}, p : [1..n -> 1..MaxP], lo : {[d \in 1..n |-> IF d = 2 THEN 3 ELSE 0 - d]},
                ext : [1..n -> 1..MaxExt], per : BOOLEAN] : n \in 1..MaxDims}
Dom(k, bb) == \A d \in Dims(k) : k.ext[d] \div k.p[d] >= 1 /\ bb <= k.ext[d] \div k.p[d]

Init == /\ c \in {k \in Cfgs : Dom(k, 1)}
        /\ b \in 0..MaxB
        /\ Dom(c, b)
        /\ r \in 0..(Size(c) - 1)
        /\ todo = Offsets(c)
        /\ sent = [q \in 0..(Size(c) - 1) |-> {}]

Send == todo # {} /\ \E o \in {CHOOSE o \in todo : TRUE} :
   /\ todo' = todo \ {o}
   /\ sent' = IF Exists(c, r, o) /\ Ngh(c, r, o) # r
              THEN [sent EXCEPT ![Ngh(c, r, o)] = @ \cup BoxCells(c, Slice(c, RankBox(c, r), o, b))]
              ELSE sent
   /\ UNCHANGED <<c, b, r>>
Next == Send
Spec == Init /\ [][Next]_vars

Boxes == [i \in 1..Size(c) |-> RankBox(c, i - 1)]
TilesExactly == Tiles(c, Boxes) /\ Fair(c, Boxes)
(* the interval argument agrees with counting cells *)
CellsOnce == UNION {BoxCells(c, Boxes[i]) : i \in 1..Size(c)}
                = Range(c, [d \in Dims(c) |-> c.lo[d]..(c.lo[d] + c.ext[d] - 1)])
             /\ \A i, j \in 1..Size(c) : i # j => BoxCells(c, Boxes[i]) \cap BoxCells(c, Boxes[j]) = {}
NeverTooMuch == \A q \in 0..(Size(c) - 1) : sent[q] \subseteq
                   (IF q = r THEN {} ELSE Needed(c, RankBox(c, r), RankBox(c, q), b))
BuffersFilled == todo = {} => \A q \in 0..(Size(c) - 1) \ {r} :
                   b > 0 => sent[q] = Needed(c, RankBox(c, r), RankBox(c, q), b)
=============================================================================
