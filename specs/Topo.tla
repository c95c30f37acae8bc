-------------------------------- MODULE Topo --------------------------------
(* How the ranks of a communicator share a space: a Cartesian arrangement of boxes.

   A configuration c: dims (1..3), p (processes per dimension), lo / ext (global
   origin and extent per dimension), per (wrap around).  A box is [lo, hi], two
   sequences of length dims, upper bound exclusive.                            *)
EXTENDS Integers, Sequences, FiniteSets

Dims(c) == 1..c.dims
Cells(b, d) == b.lo[d]..(b.hi[d] - 1)

(* ---- the arrangement the package uses: row-major ranks, remainders to the first *)
RECURSIVE Stride(_, _)
Stride(p, d) == IF d = Len(p) THEN 1 ELSE p[d + 1] * Stride(p, d + 1)
Coord(p, r, d) == (r \div Stride(p, d)) % p[d]
Min2(a, b) == IF a < b THEN a ELSE b
CoordLo(c, d, k) == c.lo[d] + k * (c.ext[d] \div c.p[d]) + Min2(k, c.ext[d] % c.p[d])
RankBox(c, r) == [lo |-> [d \in Dims(c) |-> CoordLo(c, d, Coord(c.p, r, d))],
                  hi |-> [d \in Dims(c) |-> CoordLo(c, d, Coord(c.p, r, d) + 1)]]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
Size(c) == Prod(c.p)

(* ---- what each rank must see of another: the declarative meaning of a buffer -- *)
(* the coordinates within b of the box in dimension d, wrapped if need be *)
Wrap(c, d, x) == c.lo[d] + ((x - c.lo[d]) % c.ext[d])
Near(c, box, d, b) ==
  IF c.per THEN {Wrap(c, d, x) : x \in (box.lo[d] - b)..(box.hi[d] + b - 1)}
  ELSE (box.lo[d] - b)..(box.hi[d] + b - 1)

Range(c, S) ==     \* the product of per-dimension sets, as a set of points
  CASE c.dims = 1 -> {<<x>> : x \in S[1]}
    [] c.dims = 2 -> {<<x, y>> : x \in S[1], y \in S[2]}
    [] OTHER      -> {<<x, y, z>> : x \in S[1], y \in S[2], z \in S[3]}

BoxCells(c, box) == Range(c, [d \in Dims(c) |-> Cells(box, d)])
(* the part of box a within the buffer b of box o *)
Needed(c, a, o, b) == Range(c, [d \in Dims(c) |-> Cells(a, d) \cap Near(c, o, d, b)])

(* ---- how it is done: one slice for each of the 3^dims - 1 directions ---------- *)
Offsets(c) == {o \in [Dims(c) -> {-1, 0, 1}] : \E d \in Dims(c) : o[d] # 0}
Exists(c, r, o) == c.per \/ \A d \in Dims(c) : Coord(c.p, r, d) + o[d] \in 0..(c.p[d] - 1)
RECURSIVE RankAt(_, _, _)
RankAt(c, k, d) == IF d > c.dims THEN 0 ELSE (k[d] % c.p[d]) * Stride(c.p, d) + RankAt(c, k, d + 1)
Ngh(c, r, o) == RankAt(c, [d \in Dims(c) |-> Coord(c.p, r, d) + o[d]], 1)
Slice(c, box, o, b) ==
  [lo |-> [d \in Dims(c) |-> IF o[d] = 1 THEN box.hi[d] - b ELSE box.lo[d]],
   hi |-> [d \in Dims(c) |-> IF o[d] = -1 THEN box.lo[d] + b ELSE box.hi[d]]]

(* ---- partitions, decided without enumerating cells ------------------------------ *)
Intervals(c, boxes, d) == {<<b.lo[d], b.hi[d]>> : b \in boxes}
IsPartition(I, lo, hi) ==
  /\ \A i \in I : i[1] < i[2] /\ i[1] >= lo /\ i[2] <= hi
  /\ \E i \in I : i[1] = lo
  /\ \E i \in I : i[2] = hi
  /\ \A i \in I : i[2] = hi \/ \E j \in I : j[1] = i[2]
  /\ \A i, j \in I : i # j => (i[2] <= j[1] \/ j[2] <= i[1])
Balanced(I) == \A i, j \in I : (i[2] - i[1]) - (j[2] - j[1]) <= 1
(* boxes: a sequence with one box for each rank *)
Tiles(c, boxes) ==
  LET B == {boxes[i] : i \in 1..Len(boxes)} IN
  /\ \A d \in Dims(c) : IsPartition(Intervals(c, B, d), c.lo[d], c.lo[d] + c.ext[d])
  /\ Cardinality(B) = Len(boxes)
  /\ Len(boxes) = Prod([d \in Dims(c) |-> Cardinality(Intervals(c, B, d))])
Fair(c, boxes) ==
  \A d \in Dims(c) : Balanced(Intervals(c, {boxes[i] : i \in 1..Len(boxes)}, d))
=============================================================================
