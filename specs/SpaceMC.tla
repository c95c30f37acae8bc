------------------------------ MODULE SpaceMC ------------------------------
(* Closed model of Space: exhaustive checking and generation of op sequences. *)
EXTENDS Space, Json
CONSTANTS NAg, NegX, SizeX, SizeY, Below, Above, Depth, Gen
(* bounds [-NegX, SizeX - NegX) x [0, SizeY); points up to Below under and Above over them *)
LoX == 0 - NegX
HiX == SizeX - NegX
LoY == 0
HiY == SizeY
Pts1 == (LoX - Below)..(HiX + Above)
Pts2 == (LoY - Below)..(HiY + Above)

VARIABLES cfg, s, n, prog
vars == <<cfg, s, n, prog>>

Cfgs == {[kind |-> "grid", per |-> p, occ |-> o, lo |-> <<LoX, LoY, 0>>, hi |-> <<HiX, HiY, 0>>] :
          p \in {"sticky", "periodic"}, o \in {"multi", "single"}}

Note(op) == prog' = IF Gen THEN Append(prog, op) ELSE prog
Init == cfg \in Cfgs /\ s = S0 /\ n = 0 /\ prog = <<>>
Next ==
  /\ n < Depth /\ n' = n + 1 /\ UNCHANGED cfg
  /\ \/ \E a \in 1..NAg : a \notin s.ag /\ s' = Add(s, a) /\ Note([k |-> "add", a |-> a])
     \/ \E a \in s.ag : s' = Remove(s, a) /\ Note([k |-> "rm", a |-> a])
     \/ \E a \in s.ag, x \in Pts1, y \in Pts2 :
          s' = Move(cfg, s, a, <<x, y, 0>>) /\ Note([k |-> "move", a |-> a, p |-> <<x, y, 0>>])
  /\ (Gen /\ n' = Depth) => PrintT("PROG " \o ToJson([cfg |-> cfg, ops |-> prog']))
Spec == Init /\ [][Next]_vars

TypeOk == StateOk(cfg, s)
(* C15 *)
BorderOk == \A x \in Pts1, y \in Pts2 :
  LET p == <<x, y, 0>>  q == Border(cfg, p) IN
  /\ Inside(cfg, q) /\ Border(cfg, q) = q
  /\ Inside(cfg, p) => q = p
  /\ cfg.per = "periodic" => \A d \in {1, 2} : (q[d] - p[d]) % (cfg.hi[d] - cfg.lo[d]) = 0
  /\ cfg.per = "sticky" => \A d \in {1, 2} : \A z \in cfg.lo[d]..(cfg.hi[d] - 1) :
        (q[d] - p[d]) * (q[d] - p[d]) <= (z - p[d]) * (z - p[d])
(* C14: location and contents agree; a blocked move changes nothing *)
Agree == /\ \A a \in Located(s) : \E j \in 1..Len(AgentsAt(s, s.loc[a])) : AgentsAt(s, s.loc[a])[j] = a
         /\ Cardinality(Located(s)) = LET Q == {s.loc[a] : a \in Located(s)} IN
              LET RECURSIVE Sum(_)
                  Sum(T) == IF T = {} THEN 0 ELSE LET q == CHOOSE q \in T : TRUE IN Len(AgentsAt(s, q)) + Sum(T \ {q})
              IN Sum(Q)
(* C16 on the specification: boxes partition *)
BoxesPartition == \A m \in LoX..HiX :
   LET L == Within(cfg, s, cfg.lo, <<m, HiY, 1>>)  R == Within(cfg, s, <<m, LoY, 0>>, cfg.hi)
   IN L \cup R = Located(s) /\ L \cap R = {}
OthersUntouched == [][\A a \in Located(s) : (a \in Located(s') /\ s'.loc[a] # s.loc[a]) =>
                        \A b \in Located(s) \ {a} : b \in Located(s') /\ s'.loc[b] = s.loc[b]]_vars
=============================================================================
