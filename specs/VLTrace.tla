------------------------------- MODULE VLTrace -------------------------------
(* Events, on rank r: box lo hi (its part) | init i vals (random initial values, the whole window)
   | set p v | get p v | nghs p locs vals | dump i vals (the tensor, row major) | bounds lo hi
   and of all ranks: ready | coherent | swap | sync | nosync.   i: 1 the layer read from, 2 the one written to.
   cfg: dims lo ext per b n rw init                                                     *)
EXTENDS VL, TraceBase

VInit(cfg) == [c |-> cfg, B |-> <<>>, L |-> <<>>, rd |-> 1]

Rd(s) == s.rd
Wr(s) == IF s.c.rw THEN 3 - s.rd ELSE s.rd
Ix(s, i) == IF i = 1 THEN Rd(s) ELSE Wr(s)
P3(q) == <<q[1], IF Len(q) > 1 THEN q[2] ELSE 0, IF Len(q) > 2 THEN q[3] ELSE 0>>

(* the tensor's order: slowest is the last dimension *)
WidthOf(c, box, d) == WHi(c, box, d) - WLo(c, box, d) + 1
Index(c, box, q) == ((q[3] - WLo(c, box, 3)) * WidthOf(c, box, 2) + (q[2] - WLo(c, box, 2))) * WidthOf(c, box, 1) + (q[1] - WLo(c, box, 1)) + 1
DumpCl(s, e) ==
  LET c == s.c
      box == s.B[e.r]
      w == s.L[e.r][Ix(s, e.i)]
      t == IF s.c.rw THEN "C19,C20" ELSE IF s.c.n = 1 THEN "C18,C19" ELSE "C19"
  IN IF Len(e.vals) # Cardinality(DOMAIN w) THEN {t \o ":the tensor does not have the size of the rank's part and buffer"}
     ELSE Ok(\A q \in DOMAIN w : InBox(c, box, q) => e.vals[Index(c, box, q)] = w[q], t \o ":an own cell does not hold the value set")
          \cup Ok(\A q \in DOMAIN w : ~InBox(c, box, q) => e.vals[Index(c, box, q)] = w[q], t \o ":a buffered cell does not hold its owner's value")

GetCl(s, e) ==
  LET c == s.c
      w == s.L[e.r][Rd(s)]
      q == P3(e.p)
      own == InBox(c, s.B[e.r], Resolve(c, s.B[e.r], q))
      t == IF c.rw THEN "C20" ELSE IF c.n = 1 THEN "C18,C15" ELSE IF own THEN "C18,C19" ELSE "C19"
  IN IF ~Visible(c, s.B[e.r], q) THEN {}
     ELSE Ok(e.v = Get(c, s.B[e.r], w, q), t \o (IF own THEN ":get does not return the value last set" ELSE ":get of a buffered cell does not return its owner's value"))

NghCl(s, e) ==
  LET c == s.c
      box == s.B[e.r]
      w == s.L[e.r][Rd(s)]
      q == P3(e.p)
      got == [i \in 1..Len(e.locs) |-> P3(e.locs[i])]
      t == IF c.rw THEN "C20,C18" ELSE "C18"
      cells == {Cell(c, got[i]) : i \in 1..Len(got)}
  IN Ok(Len(e.vals) = Len(e.locs), t \o ":get_nghs returns different numbers of values and locations")
     \cup Ok(cells = NghCells(c, q) /\ (c.per \/ \A i \in 1..Len(got) : got[i] = Cell(c, got[i])), t \o ":get_nghs does not return the surrounding cells")
     \cup Ok(Len(got) = Cardinality(Around(c, q)), t \o ":get_nghs returns a cell more than once")
     \cup (IF Len(e.vals) # Len(e.locs) \/ cells # NghCells(c, q) THEN {}
           ELSE Ok(\A i \in 1..Len(got) : \E n \in Around(c, q) : Cell(c, n) = Cell(c, got[i]) /\ e.vals[i] = w[Resolve(c, box, n)],
                   t \o ":get_nghs returns a value that is not that of the location"))

(* own cells of a random layer may hold anything; the buffers must agree with them *)
Adopt(s, e) ==
  LET c == s.c
      box == s.B[e.r]
  IN [q \in Window(c, box) |-> e.vals[Index(c, box, q)]]
InitCl(s, e) == Ok(Len(e.vals) = Cardinality(Window(s.c, s.B[e.r])), "C19:the tensor does not have the size of the rank's part and buffer")

Ready(s) ==
  LET c == s.c
      bs == [i \in 1..c.n |-> s.B[i - 1]]
  IN Ok(DOMAIN s.B = 0..(c.n - 1) /\ Tiles(c, bs), "C17,C18,C19:local bounds do not tile the bounds")

SyncBoth(s) ==
  LET S1 == SyncAll(s.c, s.B, [r \in DOMAIN s.L |-> s.L[r][1]])
      S2 == IF s.c.rw THEN SyncAll(s.c, s.B, [r \in DOMAIN s.L |-> s.L[r][2]]) ELSE S1
  IN [r \in DOMAIN s.L |-> <<S1[r], S2[r]>>]

SetTo(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
EmptyF == [x \in {} |-> 0]

VStep(s, e) ==
  CASE e.k = "box"  -> LET B1 == SetTo(IF s.B = <<>> THEN EmptyF ELSE s.B, e.r, [lo |-> e.lo, hi |-> e.hi])
                           L1 == SetTo(IF s.L = <<>> THEN EmptyF ELSE s.L, e.r,
                                       LET f == Fill(s.c, [lo |-> e.lo, hi |-> e.hi], s.c.init) IN <<f, f>>)
                       IN [bad |-> {}, s |-> [s EXCEPT !.B = B1, !.L = L1]]
    [] e.k = "ready" -> [bad |-> Ready(s), s |-> s]
    [] e.k = "init"  -> LET b == InitCl(s, e) IN
                        [bad |-> b, s |-> IF b # {} THEN s ELSE [s EXCEPT !.L[e.r][Ix(s, e.i)] = Adopt(s, e)]]
    [] e.k = "coherent" ->  \* after the constructor the buffers of random layers hold the owners' values
                        [bad |-> Ok(\A r \in DOMAIN s.L : SyncBoth(s)[r][1] = s.L[r][1] /\ (s.c.rw => SyncBoth(s)[r][2] = s.L[r][2]), "C19,C20:after construction a buffered cell does not hold its owner's value"), s |-> s]
    [] e.k = "set"  -> [bad |-> {}, s |-> [s EXCEPT !.L[e.r][Wr(s)] = Set(s.c, s.B[e.r], @, P3(e.p), e.v)]]
    [] e.k = "get"  -> [bad |-> GetCl(s, e), s |-> s]
    [] e.k = "nghs" -> [bad |-> NghCl(s, e), s |-> s]
    [] e.k = "dump" -> [bad |-> DumpCl(s, e), s |-> s]
    [] e.k = "bounds" -> [bad |-> Ok(\A d \in Dims(s.c) : e.lo[d] = s.c.lo[d] /\ e.hi[d] = s.c.lo[d] + s.c.ext[d], "C18:bounds are not those given"), s |-> s]
    [] e.k = "swap" -> [bad |-> {}, s |-> [s EXCEPT !.rd = 3 - @]]

(* the layers of a context: cfg.ls their configurations, e.y the layer of an event; the context is synchronized as a
   whole, except that "nosync" (without ghosts) touches no layer *)
MInit(cfg) == [y \in 1..Len(cfg.ls) |-> VInit(cfg.ls[y])]
MStep(S, e) ==
  CASE e.k = "sync" -> [bad |-> {}, s |-> [y \in DOMAIN S |-> [S[y] EXCEPT !.L = SyncBoth(S[y])]]]
    [] e.k = "nosync" -> [bad |-> {}, s |-> S]
    [] OTHER -> LET x == VStep(S[e.y], e) IN [bad |-> x.bad, s |-> [S EXCEPT ![e.y] = x.s]]
=============================================================================
