-------------------------------- MODULE Net --------------------------------
(* A network on one rank: a simple graph (directed or not, self-loops allowed)
   of agents with attributes on its edges, and next to it the table of
   canonical keys by which an undirected network knows its edges.

   dir   directed or not                  (configuration)
   nd    the agents in the network
   ed    edge -> attributes (attribute -> value);  an edge is a pair of agents,
         of an undirected network the one with the smaller agent first
   key   ordered pair -> ordered pair:  canonical_edge_keys
   new, upd, rem:  what a rank would still have to tell others; on one rank
         there is nobody to tell, so these stay empty

   Anchors: network.py SharedNetwork.*, UndirectedSharedNetwork.*,
   DirectedSharedNetwork.*                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NetNone == <<>>
NDrop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Net0(dir) == [dir |-> dir, nd |-> {}, ed |-> NetNone, key |-> NetNone]

EKey(dir, u, v) == IF dir \/ u <= v THEN <<u, v>> ELSE <<v, u>>
Has(g, u, v) == EKey(g.dir, u, v) \in DOMAIN g.ed
Ends(e) == {e[1], e[2]}

AddNodes(g, S) == [g EXCEPT !.nd = @ \cup S]
(* attributes given again replace, the others stay *)
Put(g, u, v, w) ==
  LET e == EKey(g.dir, u, v)
      old == IF e \in DOMAIN g.ed THEN g.ed[e] ELSE NetNone
      k == IF <<u, v>> \in DOMAIN g.key THEN g.key[<<u, v>>] ELSE <<u, v>> IN
  [g EXCEPT !.nd = @ \cup {u, v}, !.ed = (e :> (w @@ old)) @@ @,
            !.key = IF g.dir THEN @ ELSE (<<u, v>> :> k) @@ (<<v, u>> :> k) @@ @]
Update(g, u, v, w) == [g EXCEPT !.ed[EKey(g.dir, u, v)] = w @@ @]
Cut(g, E) == [g EXCEPT !.ed = NDrop(@, E), !.key = NDrop(@, {p \in DOMAIN @ : EKey(g.dir, p[1], p[2]) \in E})]
Unlink(g, u, v) == Cut(g, {EKey(g.dir, u, v)})
Clear(g) == Cut(g, DOMAIN g.ed)
RemoveNode(g, u) == [Cut(g, {e \in DOMAIN g.ed : u \in Ends(e)}) EXCEPT !.nd = @ \ {u}]

(* queries *)
NodeCount(g) == Cardinality(g.nd)
EdgeCount(g) == Cardinality(DOMAIN g.ed)
NumEdges(g, u) == Cardinality({e \in DOMAIN g.ed : u \in Ends(e)})
=============================================================================
