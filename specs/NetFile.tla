------------------------------ MODULE NetFile ------------------------------
(* A graph partitioned over p ranks and written to a file; the file read by the
   ranks of a communicator into a context; what every rank then sees, and goes
   on to see when edges and nodes change.

   A graph:  dir,  nodes: id -> [ty, at],  edges: edge -> attributes.
   Attributes are sets of <<name, JSON text>>.
   own: id -> rank.  An edge is seen by the ranks of both of its ends; the far
   end is then a ghost, of which there is one, as its owner has it.  The reader
   requests these ghosts, so they stay when the edge goes.

   Anchors: network.py write_network, _random_partition, read_network,
   _parse_node, _parse_edge, _request_remote_agents, _create_edges           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

FKey(dir, u, v) == IF dir \/ u <= v THEN <<u, v>> ELSE <<v, u>>
FDrop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Ceil(n, p) == (n + p - 1) \div p
Load(own, r) == Cardinality({u \in DOMAIN own : own[u] = r})
GoodPartition(N, own, p) == /\ DOMAIN own = N
                            /\ \A u \in N : own[u] \in 0..(p - 1)
                            /\ \A r \in 0..(p - 1) : Load(own, r) <= Ceil(Cardinality(N), p)

Seen(own, ed, r) == {e \in DOMAIN ed : r \in {own[e[1]], own[e[2]]}}
Mine(own, r) == {u \in DOMAIN own : own[u] = r}
GhostsOf(own, ed, r) == UNION {{e[1], e[2]} : e \in Seen(own, ed, r)} \ Mine(own, r)

(* attributes set again replace those of the same name *)
Over(w, old) == w \cup {x \in old : \A y \in w : y[1] # x[1]}
SetEdge(g, u, v, w) ==
  LET e == FKey(g.dir, u, v) IN [g EXCEPT !.ed = (e :> Over(w, IF e \in DOMAIN @ THEN @[e] ELSE {})) @@ @]
CutEdge(g, u, v) == [g EXCEPT !.ed = FDrop(@, {FKey(g.dir, u, v)})]
CutNode(g, u) == [g EXCEPT !.own = FDrop(@, {u}), !.at = FDrop(@, {u}), !.ed = FDrop(@, {e \in DOMAIN @ : u \in {e[1], e[2]}})]
=============================================================================
