------------------------------ MODULE NetTrace ------------------------------
(* Events on network i:  nodes as | remove a err | add_edge u v at | update_edge u v at err
   | remove_edge u v err | clear | sync | leave a (removed from the context)
   | enter a (added to the context: to every network) | obs nodes n m edges num has mem dir
   cfg: m agents, nets: <<directed, ..>>                                      *)
EXTENDS Net, TraceBase

NInit(cfg) == [m |-> cfg.m, g |-> [i \in 1..Len(cfg.nets) |-> Net0(cfg.nets[i])]]

Rng(q) == {q[i] : i \in 1..Len(q)}
Attr(at) == [k \in {at[i][1] : i \in 1..Len(at)} |-> (CHOOSE x \in Rng(at) : x[1] = k)[2]]

ObsCl(g, m, e) ==
  LET seen == {EKey(g.dir, e.edges[i][1], e.edges[i][2]) : i \in 1..Len(e.edges)}
      f == g.dir
      D(x) == IF f THEN "C10:directed network: " \o x ELSE "C10:undirected network: " \o x
  IN Ok(e.dir = g.dir, D("is_directed is wrong"))
     \cup Ok(Rng(e.nodes) = g.nd /\ Len(e.nodes) = NodeCount(g), D("iteration does not give exactly the agents in the network"))
     \cup Ok(e.n = NodeCount(g), D("node_count is not the number of agents"))
     \cup Ok(e.m = EdgeCount(g), D("edge_count is not the number of edges"))
     \cup Ok(seen = DOMAIN g.ed /\ Len(e.edges) = EdgeCount(g), D("the edges are not those made by the calls"))
     \cup Ok(seen # DOMAIN g.ed \/ \A i \in 1..Len(e.edges) :
               Attr(e.edges[i][3]) = g.ed[EKey(g.dir, e.edges[i][1], e.edges[i][2])], D("the attributes of an edge are not those set"))
     \cup Ok(\A i \in 1..Len(e.num) : e.num[i][2] = NumEdges(g, e.num[i][1]), D("num_edges is not the number of the agent's edges"))
     \cup Ok(\A u, v \in 1..m : (<<u, v>> \in Rng(e.has)) = Has(g, u, v), D("contains_edge is wrong"))
     \cup Ok(Rng(e.mem) = g.nd, D("membership of an agent is wrong"))

Err(e, want) == Ok(e.err = want, IF want THEN "C10:a " \o e.k \o " of what is not there was accepted" ELSE "C10:" \o e.k \o " failed")

NStep(s, e) ==
  LET To(h) == [bad |-> {}, s |-> [s EXCEPT !.g[e.i] = h]]
      If(may, h) == [bad |-> Err(e, ~may), s |-> IF may THEN [s EXCEPT !.g[e.i] = h] ELSE s]
  IN CASE e.k = "nodes"       -> To(AddNodes(s.g[e.i], Rng(e.as)))
       [] e.k = "remove"      -> If(e.a \in s.g[e.i].nd, RemoveNode(s.g[e.i], e.a))
       [] e.k = "add_edge"    -> To(Put(s.g[e.i], e.u, e.v, Attr(e.at)))
       [] e.k = "update_edge" -> If(Has(s.g[e.i], e.u, e.v), IF Has(s.g[e.i], e.u, e.v) THEN Update(s.g[e.i], e.u, e.v, Attr(e.at)) ELSE s.g[e.i])
       [] e.k = "remove_edge" -> If(Has(s.g[e.i], e.u, e.v), Unlink(s.g[e.i], e.u, e.v))
       [] e.k = "clear"       -> To(Clear(s.g[e.i]))
       [] e.k = "sync"        -> [bad |-> {}, s |-> s]
       [] e.k = "enter"       -> [bad |-> {}, s |-> [s EXCEPT !.g = [i \in DOMAIN @ |-> AddNodes(@[i], {e.a})]]]
       [] e.k = "leave"       -> [bad |-> {}, s |-> [s EXCEPT !.g = [i \in DOMAIN @ |-> RemoveNode(@[i], e.a)]]]
       [] e.k = "obs"         -> [bad |-> ObsCl(s.g[e.i], s.m, e), s |-> s]
=============================================================================
