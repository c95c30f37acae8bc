------------------------------ MODULE TopoTrace ------------------------------
(* Events: box (one for each rank and kind: topo, grid, cspace, vl), with the coordinates,
   processes per dimension and the regions sent for kind topo; rpt (random local points); end. *)
EXTENDS Topo, TraceBase

TopInit(cfg) == [c |-> cfg, x |-> <<>>]

Of(s, k) == SelectSeq(s.x, LAMBDA e : e.kind = k)
Bx(e) == [lo |-> e.lo, hi |-> e.hi]
SeqSet(q) == {q[i] : i \in 1..Len(q)}

KindCl(s, k) ==
  LET c == s.c
      q == Of(s, k)
      bs == [i \in 1..Len(q) |-> Bx(q[i])] IN
  IF q = <<>> THEN {}
  ELSE Ok(Len(q) = c.n, "C17:a rank has no local bounds")
       \cup Ok(Tiles(c, bs), "C17:local bounds do not tile the global bounds")
       \cup Ok(Fair(c, bs), "C17:extents differ by more than one")

ArrCl(s) ==
  LET c == s.c
      q == Of(s, "topo")
      P == q[1].ppd IN
  Ok(\A e \in SeqSet(q) : e.ppd = P /\ Len(P) = c.dims, "C17:processes per dimension differ between ranks")
  \cup Ok(Prod(P) = c.n, "C17:processes per dimension do not account for the ranks")
  \cup Ok(\A e \in SeqSet(q) : Len(e.co) = c.dims /\ \A d \in Dims(c) : e.co[d] \in 0..(P[d] - 1), "C17:coordinates out of range")
  \cup Ok(\A e, f \in SeqSet(q) : e.r # f.r => e.co # f.co, "C17:two ranks with the same coordinates")
  \cup Ok(\A e, f \in SeqSet(q) : \A d \in Dims(c) :
            /\ e.co[d] = f.co[d] => e.lo[d] = f.lo[d] /\ e.hi[d] = f.hi[d]
            /\ e.co[d] < f.co[d] => e.hi[d] <= f.lo[d], "C17:local bounds are not arranged by coordinates")

(* a buffer larger than some rank's part is outside of what the package supports *)
InDomain(s) == \A e \in SeqSet(Of(s, "topo")) : \A d \in Dims(s.c) : e.b <= e.hi[d] - e.lo[d]

SendCl(s) ==
  LET c == s.c
      q == Of(s, "topo")
      box(r) == Bx((CHOOSE e \in SeqSet(q) : e.r = r)) IN
  UNION {
    LET e == q[i]
        to(t) == {j \in 1..Len(e.sends) : e.sends[j].q = t}
        sent(t) == UNION {BoxCells(c, Bx(e.sends[j])) : j \in to(t)}
    IN
    Ok(to(e.r) = {}, "C17:a rank sends a region to itself")
    \cup Ok(\A j \in 1..Len(e.sends) : e.sends[j].q \in 0..(c.n - 1), "C17:region for a rank that does not exist")
    \cup Ok(\A j \in 1..Len(e.sends) : \A d \in Dims(c) : e.sends[j].lo[d] >= e.lo[d] /\ e.sends[j].hi[d] <= e.hi[d],
            "C17:a region is outside of the sender's local bounds")
    \cup Ok(\A t \in 0..(c.n - 1) \ {e.r} : sent(t) \subseteq Needed(c, Bx(e), box(t), e.b), "C17:a region is not within the receiver's buffer")
    \cup Ok(e.b = 0 \/ \A t \in 0..(c.n - 1) \ {e.r} : Needed(c, Bx(e), box(t), e.b) \subseteq sent(t), "C17:part of a buffer is not sent")
    : i \in 1..Len(q)}

(* random local points: pts the cells of those drawn, in three coordinates; many more were drawn than there are
   cells if e.all, so that a cell without any is one that is never drawn *)
RandCl(s, e) ==
  LET c == s.c
      b == Bx((CHOOSE x \in SeqSet(Of(s, e.kind)) : x.r = e.r))
      got == {[d \in Dims(c) |-> e.pts[i][d]] : i \in 1..Len(e.pts)}
  IN Ok(\A i \in 1..Len(e.pts) : \A d \in 1..3 : d \in Dims(c) \/ e.pts[i][d] = 0, "C17:a random local point has a coordinate in an unused dimension")
     \cup Ok(\A i \in 1..Len(e.pts) : \A d \in Dims(c) : e.pts[i][d] >= b.lo[d] /\ e.pts[i][d] < b.hi[d], "C17:a random local point is not within the local bounds")
     \cup Ok(e.all => BoxCells(c, b) \subseteq got, "C17:some cell of the local bounds is never a random local point")

TopStep(s, e) ==
  CASE e.k = "box" -> [bad |-> {}, s |-> [s EXCEPT !.x = Append(@, e)]]
    [] e.k = "end" -> [bad |-> LET a == UNION {KindCl(s, k) : k \in {"topo", "grid", "cspace", "vl"}} IN
                               IF a # {} \/ Of(s, "topo") = <<>> THEN a
                               ELSE LET g == ArrCl(s) IN IF g # {} \/ ~s.c.sends \/ ~InDomain(s) THEN g ELSE SendCl(s),
                       s |-> s]
    [] e.k = "rpt" -> [bad |-> IF Of(s, e.kind) = <<>> THEN {} ELSE RandCl(s, e), s |-> s]
=============================================================================
