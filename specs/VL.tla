--------------------------------- MODULE VL ---------------------------------
(* Value layers.  A layer on a rank stores a value at every position of its window: its
   part of the global bounds widened by the buffer.  With periodic borders the window
   extends past the global bounds (a position there stands for the cell it wraps to);
   with sticky ones it is clipped.  A read-write layer is a pair of such stores.

   A configuration c: dims, lo, ext, per, b (buffer, 0 when there is one rank).
   Points are 3-tuples, unused dimensions 0.                                       *)
EXTENDS Topo

Used(c, d) == d <= c.dims
WLo(c, box, d) == IF ~Used(c, d) THEN 0
                  ELSE IF c.per THEN box.lo[d] - c.b
                  ELSE IF box.lo[d] = c.lo[d] THEN box.lo[d] ELSE box.lo[d] - c.b
WHi(c, box, d) == IF ~Used(c, d) THEN 0
                  ELSE IF c.per THEN box.hi[d] + c.b - 1
                  ELSE IF box.hi[d] = c.lo[d] + c.ext[d] THEN box.hi[d] - 1 ELSE box.hi[d] + c.b - 1
Window(c, box) == {<<x, y, z>> : x \in WLo(c, box, 1)..WHi(c, box, 1),
                                 y \in WLo(c, box, 2)..WHi(c, box, 2),
                                 z \in WLo(c, box, 3)..WHi(c, box, 3)}
InWin(c, box, q) == \A d \in 1..3 : q[d] >= WLo(c, box, d) /\ q[d] <= WHi(c, box, d)
InBox(c, box, q) == \A d \in Dims(c) : q[d] >= box.lo[d] /\ q[d] < box.hi[d]

(* the cell of the space a point stands for *)
Clip(c, d, x) == IF x < c.lo[d] THEN c.lo[d] ELSE IF x >= c.lo[d] + c.ext[d] THEN c.lo[d] + c.ext[d] - 1 ELSE x
Cell(c, q) == [d \in 1..3 |-> IF ~Used(c, d) THEN 0 ELSE IF c.per THEN Wrap(c, d, q[d]) ELSE Clip(c, d, q[d])]

(* the position of the window at which a rank keeps a point *)
Resolve(c, box, q) ==
  [d \in 1..3 |->
     IF ~Used(c, d) THEN 0
     ELSE IF q[d] >= WLo(c, box, d) /\ q[d] <= WHi(c, box, d) THEN q[d]
     ELSE IF ~c.per THEN Clip(c, d, q[d])
     ELSE LET w == Wrap(c, d, q[d]) IN
          IF w < WLo(c, box, d) THEN w + c.ext[d] ELSE IF w > WHi(c, box, d) THEN w - c.ext[d] ELSE w]
Visible(c, box, q) == InWin(c, box, Resolve(c, box, q))

Owner(c, boxes, q) == CHOOSE r \in DOMAIN boxes : InBox(c, boxes[r], Cell(c, q))

(* ---- operations ----------------------------------------------------------------- *)
Fill(c, box, v) == [q \in Window(c, box) |-> v]
Get(c, box, w, q) == w[Resolve(c, box, q)]
Set(c, box, w, q, v) == [w EXCEPT ![Resolve(c, box, q)] = v]
(* L: rank |-> store; every rank's buffer takes the owners' values of this moment *)
SyncAll(c, boxes, L) ==
  [r \in DOMAIN L |-> [q \in DOMAIN L[r] |->
     IF InBox(c, boxes[r], q) THEN L[r][q] ELSE L[Owner(c, boxes, q)][Cell(c, q)]]]

(* the positions at distance at most one of a cell *)
Around(c, q) ==
  {n \in {<<q[1] + dx, q[2] + dy, q[3] + dz>> :
            dx \in -1..1, dy \in (IF c.dims > 1 THEN -1..1 ELSE {0}), dz \in (IF c.dims > 2 THEN -1..1 ELSE {0})} :
     c.per \/ \A d \in Dims(c) : n[d] >= c.lo[d] /\ n[d] < c.lo[d] + c.ext[d]}
NghCells(c, q) == {Cell(c, n) : n \in Around(c, q)}
=============================================================================
