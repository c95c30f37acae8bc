---------------------------- MODULE NetFileTrace ----------------------------
(* Events:  file name dir nodes <<id, ty, rank, at>> edges <<u, v, at>>: what write_network wrote
   | given: the file was written by hand, as cfg says    | read
   | seen r name dir loc gh nodes edges    | set r u v w | cut r u v | del r u | sync | all (every rank has looked)
   loc: <<id, ty, birth rank, rank, at>>   gh: the same, as the ghosts are
   cfg: dir name p n (ranks reading: p or 1) nodes edges as in file  *)
EXTENDS NetFile, TraceBase

FSet(q) == {q[i] : i \in 1..Len(q)}
EdOf(dir, es) == [e \in {FKey(dir, es[i][1], es[i][2]) : i \in 1..Len(es)} |->
                   FSet((CHOOSE x \in FSet(es) : FKey(dir, x[1], x[2]) = e)[3])]
Ids(ns) == {ns[i][1] : i \in 1..Len(ns)}
Node(ns, u) == CHOOSE x \in FSet(ns) : x[1] = u

FInit(cfg) == [c |-> cfg, dir |-> cfg.dir, own |-> <<>>, at |-> <<>>, ed |-> <<>>, birth |-> <<>>, req |-> <<>>]

FileCl(c, e) ==
  LET want == {<<c.nodes[i][1], c.nodes[i][2], FSet(c.nodes[i][4])>> : i \in 1..Len(c.nodes)}
      got == {<<e.nodes[i][1], e.nodes[i][2], FSet(e.nodes[i][4])>> : i \in 1..Len(e.nodes)}
      own == [u \in Ids(e.nodes) |-> Node(e.nodes, u)[3]] IN
  Ok(e.name = c.name /\ e.dir = c.dir, "C13:the file does not begin with the name and the kind of the network")
  \cup Ok(want = got /\ Len(e.nodes) = Len(c.nodes), "C13:the file does not list every node once with its type and attributes")
  \cup Ok(EdOf(c.dir, e.edges) = EdOf(c.dir, c.edges) /\ Len(e.edges) = Len(c.edges), "C13:the file does not list every edge once with its attributes")
  \cup Ok(\A i \in 1..Len(e.nodes) : e.nodes[i][3] \in 0..(c.p - 1), "C13:a node is assigned to a rank that does not exist")
  \cup Ok(c.metis \/ \A r \in 0..(c.p - 1) : Load(own, r) <= Ceil(Len(c.nodes), c.p), "C13:a rank is assigned more than its share of the nodes")

Start(s, ns, es, rank(_)) ==
  [s EXCEPT !.own = [u \in Ids(ns) |-> IF s.c.n = 1 THEN 0 ELSE rank(u)], !.birth = [u \in Ids(ns) |-> rank(u)],
            !.at = [u \in Ids(ns) |-> <<Node(ns, u)[2], FSet(Node(ns, u)[4])>>],
            !.ed = EdOf(s.dir, es)]

Row(s, u) == <<u, s.at[u][1], s.birth[u], s.own[u], s.at[u][2]>>
Rows(q) == {<<q[i][1], q[i][2], q[i][3], q[i][4], FSet(q[i][5])>> : i \in 1..Len(q)}

SeenCl(s, e) ==
  LET r == e.r
      \* the reader requests the far ends, and what is requested stays until it is removed
      G == GhostsOf(s.own, s.ed, r) \cup (s.req[r] \cap DOMAIN s.own)
      E == Seen(s.own, s.ed, r)
      got == {FKey(s.dir, e.edges[i][1], e.edges[i][2]) : i \in 1..Len(e.edges)} IN
  Ok(e.name = s.c.name /\ e.dir = s.dir, "C13:the context does not have the network of that name and kind")
  \cup Ok(Rows(e.loc) = {Row(s, u) : u \in Mine(s.own, r)} /\ Len(e.loc) = Cardinality(Mine(s.own, r)),
          "C13:the local agents are not exactly the rank's nodes with their types and attributes")
  \cup Ok(Rows(e.gh) = {Row(s, u) : u \in G} /\ Len(e.gh) = Cardinality(G),
          "C13:the ghosts are not exactly the far ends of the rank's edges")
  \cup Ok(FSet(e.nodes) = Mine(s.own, r) \cup G /\ Len(e.nodes) = Cardinality(Mine(s.own, r) \cup G),
          "C13:the nodes of the network are not exactly the local agents and the far ends of their edges, once each")
  \cup Ok(got = E /\ Len(e.edges) = Cardinality(E), "C13:the edges of the rank are not exactly those of its nodes")
  \cup Ok(got # E \/ \A i \in 1..Len(e.edges) : FSet(e.edges[i][3]) = s.ed[FKey(s.dir, e.edges[i][1], e.edges[i][2])],
          "C13:the attributes of an edge are not those of the graph")

FStep(s, e) ==
  CASE e.k = "file"  -> LET b == FileCl(s.c, e) IN
                        [bad |-> b, s |-> IF b # {} THEN s ELSE Start(s, e.nodes, e.edges, LAMBDA u : Node(e.nodes, u)[3])]
    [] e.k = "given" -> [bad |-> {}, s |-> Start(s, s.c.nodes, s.c.edges, LAMBDA u : Node(s.c.nodes, u)[3])]
    [] e.k = "read"  -> [bad |-> {}, s |-> [s EXCEPT !.req = [r \in 0..(s.c.n - 1) |-> GhostsOf(s.own, s.ed, r)]]]
    [] e.k \in {"sync", "all"} -> [bad |-> {}, s |-> s]
    [] e.k = "set"   -> [bad |-> {}, s |-> SetEdge(s, e.u, e.v, FSet(e.w))]
    [] e.k = "cut"   -> [bad |-> {}, s |-> CutEdge(s, e.u, e.v)]
    [] e.k = "del"   -> [bad |-> {}, s |-> CutNode(s, e.u)]
    [] e.k = "seen"  -> [bad |-> SeenCl(s, e), s |-> s]
=============================================================================
