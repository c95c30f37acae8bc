------------------------------- MODULE NetMC -------------------------------
(* Every short history of calls on one network: the graph, the key table and
   the log of calls agree; also generates programs.                          *)
EXTENDS Net, Json
CONSTANTS NAg, Vals, Depth, Gen
VARIABLES g, hist, n, prog
vars == <<g, hist, n, prog>>
Ag == 1..NAg
Attrs == {NetNone} \cup {("a" :> x) : x \in Vals} \cup {("b" :> x) : x \in Vals}
AL(w) == [i \in 1..Cardinality(DOMAIN w) |-> LET k == CHOOSE k \in DOMAIN w : TRUE IN <<k, w[k]>>]

Note(op) == prog' = IF Gen THEN Append(prog, op) ELSE prog
(* the call log, which knows nothing of graphs: <<what, u, v, w>> *)
Log(x) == hist' = IF Gen THEN hist ELSE Append(hist, x)

Init == \E d \in BOOLEAN : g = Net0(d) /\ hist = <<>> /\ n = 0 /\ prog = <<>>
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \/ \E S \in (IF Gen THEN {{u} : u \in Ag} \cup {Ag} ELSE {{u} : u \in Ag}) :
          g' = AddNodes(g, S) /\ Log(<<"n", CHOOSE u \in S : TRUE, 0, NetNone>>) /\ Note([k |-> "nodes", as |-> S])
     \/ \E u \in g.nd : g' = RemoveNode(g, u) /\ Log(<<"r", u, 0, NetNone>>) /\ Note([k |-> "remove", a |-> u])
     \/ \E u, v \in Ag, w \in Attrs : g' = Put(g, u, v, w) /\ Log(<<"a", u, v, w>>) /\ Note([k |-> "add_edge", u |-> u, v |-> v, at |-> AL(w)])
     \/ \E u, v \in Ag, w \in Attrs \ {NetNone} : Has(g, u, v) /\ g' = Update(g, u, v, w)
          /\ Log(<<"u", u, v, w>>) /\ Note([k |-> "update_edge", u |-> u, v |-> v, at |-> AL(w)])
     \/ \E u, v \in Ag : Has(g, u, v) /\ g' = Unlink(g, u, v) /\ Log(<<"d", u, v, NetNone>>) /\ Note([k |-> "remove_edge", u |-> u, v |-> v])
     \/ (n % 3 = 2) /\ g' = Clear(g) /\ Log(<<"c", 0, 0, NetNone>>) /\ Note([k |-> "clear"])
  /\ (Gen /\ n' = Depth) => PrintT("PROG " \o ToJson([dir |-> g.dir, ops |-> prog']))
Spec == Init /\ [][Next]_vars

(* ---- meaning of a call log, read backwards *)
Same(u, v, x, y) == (u = x /\ v = y) \/ (~g.dir /\ u = y /\ v = x)
Kills(h, u, v) == \/ h[1] = "c" \/ (h[1] = "r" /\ h[2] \in {u, v}) \/ (h[1] = "d" /\ Same(h[2], h[3], u, v))
LastKill(u, v) == LET K == {i \in 1..Len(hist) : Kills(hist[i], u, v)} IN IF K = {} THEN 0 ELSE CHOOSE i \in K : \A j \in K : j <= i
Sets(i, u, v) == i > LastKill(u, v) /\ hist[i][1] \in {"a", "u"} /\ Same(hist[i][2], hist[i][3], u, v)
Exists(u, v) == \E i \in 1..Len(hist) : Sets(i, u, v)
AttrOf(u, v, k) == LET S == {i \in 1..Len(hist) : Sets(i, u, v) /\ k \in DOMAIN hist[i][4]} IN
                   IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : j <= i IN <<hist[i][4][k]>>
IsNode(u) == \E i \in 1..Len(hist) : /\ hist[i][1] \in {"n", "a", "u"} /\ u \in {hist[i][2], hist[i][3]}
                                     /\ \A j \in (i + 1)..Len(hist) : ~(hist[j][1] = "r" /\ hist[j][2] = u)

GraphIsLog == Gen \/
  /\ \A u \in Ag : (u \in g.nd) = IsNode(u)
  /\ \A u, v \in Ag : /\ Has(g, u, v) = Exists(u, v)
                      /\ Has(g, u, v) => \A k \in {"a", "b"} :
                            (IF k \in DOMAIN g.ed[EKey(g.dir, u, v)] THEN <<g.ed[EKey(g.dir, u, v)][k]>> ELSE <<>>) = AttrOf(u, v, k)
EndsAreNodes == \A e \in DOMAIN g.ed : Ends(e) \subseteq g.nd
Counts == \* the hand-shake: every edge is seen by its ends
  LET RECURSIVE Sum(_)
      Sum(S) == IF S = {} THEN 0 ELSE LET u == CHOOSE u \in S : TRUE IN NumEdges(g, u) + Sum(S \ {u})
  IN Sum(g.nd) = 2 * EdgeCount(g) - Cardinality({e \in DOMAIN g.ed : e[1] = e[2]})
(* the key table: both orientations of every edge and nothing else, one key per edge *)
Keys == g.dir \/
  /\ DOMAIN g.key = {<<u, v>> \in Ag \X Ag : Has(g, u, v)}
  /\ \A p \in DOMAIN g.key : /\ g.key[p] = g.key[<<p[2], p[1]>>]
                             /\ Ends(g.key[p]) = Ends(p)
=============================================================================
