------------------------------ MODULE CtxTrace ------------------------------
(* Recorded histories of contexts.  The events of one rank between two collective
   operations come together; what each rank sees after a collective operation is
   recorded by ord (agents and ghosts) and obs (also spaces and networks).       *)
EXTENDS CtxCk, TraceBase

CInit(cfg) == WithSlots(Init0(cfg))
St(b, s) == [bad |-> b, s |-> s]

U3(q) == {x[1] : x \in SeqSet(q)}
IsPrefix2(p, q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]

(* clauses about the agents and ghosts rank r reports *)
LocalCl(s, e) ==
  LET r == e.r
      L == Locals(s, r)
      G == U3(e.loc)
      Located == UNION {DOMAIN s.loc[i] : i \in Spaces(s.c)}
      miss == L \ G
      more == G \ L
      exp == s.ls[r]
      got == [k \in 1..Len(e.loc) |-> e.loc[k][1]] IN
  Ok(miss = {}, "C05:an agent is not local on its rank")
  \cup Ok(miss \cap Located = {}, "C06:a located agent is not local to the rank that contains it")
  \cup Ok(more \subseteq s.dead, "C05:an agent is local on a rank that does not own it")
  \cup Ok((more \ s.dead) \cap Located = {}, "C06:a located agent is local to a rank that does not contain it")
  \cup Ok(more \cap s.dead = {}, "C05,C09:a removed agent is local")
  \cup Ok(Cardinality(G) = Len(e.loc), "C05,C25:an agent is listed twice")
  \cup Ok(\A k \in 1..Len(e.loc) : e.loc[k][1] \in L => e.loc[k][2] = s.st[e.loc[k][1]], "C05:the state of an agent is not the one it had")
  \cup Ok(\A k \in 1..Len(e.loc) : e.loc[k][3] = r, "C05:a local agent names another rank")
  \cup (IF G # L THEN {} ELSE
        Ok(IsPrefix2(exp, got) /\ {got[k] : k \in (Len(exp) + 1)..Len(got)} = s.arr[r], "C25:agents are not in order of insertion"))

GhostCl(s, e) ==
  LET r == e.r
      G == U3(e.gh)
      exp == s.gh[r]
      rec(u) == CHOOSE x \in SeqSet(e.gh) : x[1] = u
      both == G \cap DOMAIN exp
      miss == DOMAIN exp \ G
      inbuf == UNION {DOMAIN s.buf[i][r] : i \in Spaces(s.c)}
      ends == {u \in UNION {{x[1], x[2]} : x \in UNION {DOMAIN s.ed[i][r] : i \in Nets(s.c)}} : TRUE} IN
  IF ~s.full THEN {}
  ELSE Ok(miss = {}, "C08:a ghost that is needed is missing")
  \cup Ok(miss \cap inbuf = {}, "C07:no ghost of an agent in the buffer")
  \cup Ok(miss \cap ends = {}, "C11,C12:no ghost of an agent linked by an edge")
  \cup Ok(G \cap s.dead \subseteq DOMAIN exp, "C09,C08:a ghost of a removed agent")
  \cup Ok(G \ (DOMAIN exp \cup s.dead) = {}, "C08:a ghost that nothing needs")
  \cup Ok(\A u \in both : rec(u)[2] \in exp[u].st, "C08:a ghost does not have its agent's state")
  \cup Ok(\A u \in both \cap inbuf : rec(u)[2] \in exp[u].st, "C07:a buffered agent does not have its agent's state")
  \cup Ok(\A u \in both \cap ends \cap s.mv : rec(u)[2] \in exp[u].st, "C12:state changes do not reach the ranks an edge involves")
  \cup Ok(\A u \in both : rec(u)[3] = exp[u].own, "C08:a ghost does not name its agent's rank")

SpaceCl(s, e, i) ==
  LET r == e.r
      o == e.sp[i]
      L == Locals(s, r)
      at == [u \in U3(o.at) |-> (CHOOSE x \in SeqSet(o.at) : x[1] = u)[2]]
      mine == Keep(s.loc[i], L)
      buf == s.buf[i][r]
      gone == s.dead \cap DOMAIN at
      vis == IF s.full THEN DOMAIN mine \cup DOMAIN buf ELSE DOMAIN mine
      con == SeqSet(o.con) IN
  IF <<"s", i>> \notin s.live THEN {}
  ELSE Ok(\A u \in DOMAIN mine : u \in DOMAIN at /\ at[u] = mine[u], "C06:an agent is not where it was moved to")
  \cup Ok(\A u \in (DOMAIN at \cap L) : u \in DOMAIN mine, "C06:an agent has a location though it was not moved")
  \cup Ok(L \subseteq con, "C05:an agent is not in a space of its context")
  \cup Ok({u \in DOMAIN at \ L : u \in s.dead /\ u \notin DOMAIN buf} = {}, "C09:a removed agent is in a space")
  \cup Ok({u \in con \ L : u \in s.dead /\ u \notin DOMAIN s.gh[r]} = {}, "C09:a removed agent is in a space")
  \cup (IF ~s.full THEN {} ELSE
        Ok(\A u \in DOMAIN buf : u \in DOMAIN at /\ at[u] = buf[u], "C07:an agent is not where it should be in the buffer")
        \cup Ok({u \in DOMAIN at \ L : u \notin DOMAIN buf /\ u \notin s.dead} = {}, "C07:an agent of another rank that is not in the buffer")
        \cup Ok({u \in DOMAIN at \ L : u \notin DOMAIN buf /\ u \in s.mv /\ u \notin s.dead} = {}, "C06:a rank keeps the location of an agent that left")
        \cup Ok(con \subseteq L \cup DOMAIN s.gh[r] \cup s.dead, "C06,C07:a space contains an agent that is not on its rank"))
  \cup Ok(\A p \in SeqSet(o.pts) : LET here == {u \in DOMAIN at : at[u] = p[1]} IN
            SeqSet(p[2]) = here /\ Len(p[2]) = Cardinality(here) /\ (p[2] # <<>> => p[3] = p[2][1]),
          "C07,C06,C14:the agents at a point are not those located there")

(* an edge that has to do with an agent that once moved to another rank is C12's concern *)
NetTag(s, E, txt) == IF \E x \in E : x[1] \in s.mv \/ x[2] \in s.mv THEN "C11,C12:" \o txt ELSE "C11:" \o txt
NetCl(s, e, i) ==
  LET r == e.r
      o == e.nets[i]
      L == Locals(s, r)
      exp == s.ed[i][r]
      got == {<<x[1], x[2]>> : x \in SeqSet(o.edges)}
      att(k) == LET x == CHOOSE y \in SeqSet(o.edges) : <<y[1], y[2]>> = k IN <<x[3], x[4]>>
      miss == DOMAIN exp \ got
      more == got \ DOMAIN exp
      dead == {x \in more : x[1] \in s.dead \/ x[2] \in s.dead}
      diff == {x \in got \cap DOMAIN exp : att(x) # exp[x]}
      nodes == SeqSet(o.nodes)
      ends == UNION {{x[1], x[2]} : x \in DOMAIN exp} IN
  IF <<"n", i>> \notin s.live \/ ~s.full THEN {}
  ELSE Ok(miss = {}, NetTag(s, miss, "an edge is missing"))
  \cup Ok(more \ dead = {}, NetTag(s, more, "an edge that should not be there"))
  \cup Ok(dead = {}, "C09:an edge to a removed agent")
  \cup Ok(diff = {}, NetTag(s, diff, "an edge has other attributes"))
  \cup Ok(L \subseteq nodes, "C11,C12:an agent is not in a network of its context")
  \cup Ok(ends \subseteq nodes \/ miss # {}, "C11,C12:an endpoint is not a node")
  \cup Ok({u \in nodes \ L : u \in s.dead /\ u \notin DOMAIN s.gh[r]} = {}, "C09:a removed agent is in a network")
  \cup Ok({u \in nodes \ L : u \notin s.dead} \subseteq DOMAIN s.gh[r], "C12,C08:a network has a node that is not on its rank")
  \cup Ok(Len(o.nodes) = Cardinality(nodes) /\ o.nc = Len(o.nodes) /\ o.ec = Cardinality(got) /\ Len(o.edges) = Cardinality(got),
          "C11,C10:counts of nodes and edges")
  \cup Ok(\A x \in SeqSet(o.deg) : x[2] = Cardinality({y \in got : y[1] = x[1] \/ y[2] = x[1]}), "C11,C10:count of an agent's edges")

ObsCl(s, e) ==
  LocalCl(s, e) \cup GhostCl(s, e)
  \cup UNION {SpaceCl(s, e, i) : i \in Spaces(s.c)}
  \cup UNION {NetCl(s, e, i) : i \in Nets(s.c)}
  \cup Ok(e.same = 1 \/ ~s.full, "C08,C12:more than one object for an agent")

QueryCl(s, e) ==
  LET r == e.r
      all == s.ls[r]
      t(u) == s.c.ty[u]
      oft(k) == IF k = -1 THEN all ELSE SelectSeq(all, LAMBDA u : t(u) = k)
      min(a, b) == IF a < b THEN a ELSE b
      types == {t(all[k]) : k \in 1..Len(all)} IN
  Ok(e.all = all /\ e.size = Len(all), "C25:all agents")
  \cup Ok(SeqSet(e.have) = types, "C25:types present")
  \cup Ok(\A x \in SeqSet(e.bt) : x[2] = oft(x[1]) /\ x[3] = Len(x[2]), "C25:agents of a type")
  \cup Ok(\A x \in SeqSet(e.cnt) : x[3] = SubSeq(oft(x[1]), 1, min(x[2], Len(oft(x[1])))), "C25:a number of agents")
  \cup Ok(\A x \in SeqSet(e.shu) : /\ SeqSet(x[3]) \subseteq SeqSet(oft(x[1]))
                                   /\ Cardinality(SeqSet(x[3])) = Len(x[3])
                                   /\ Len(x[3]) = min(x[2], Len(oft(x[1]))), "C25:shuffled agents")
  \cup Ok(SeqSet(e.look) = SeqSet(all), "C25:agents found by id")

(* the insertion order of arrivals is taken from the first observation *)
Settle(s, e) == [s EXCEPT !.ls[e.r] = [k \in 1..Len(e.loc) |-> e.loc[k][1]], !.arr[e.r] = {}]

MoveCl(s, e) ==
  LET q == Sp!Border(s.c.sp[e.i], e.p) IN
  IF Blocked(s, e.i, e.u, q) THEN Ok(e.q = <<>>, "C14:a move to an occupied point succeeded")
  ELSE Ok(e.q = q, "C06,C15:a move did not lead to the point of the border rule")

Do(s, e) ==
  CASE e.k = "box" -> St({}, [s EXCEPT !.box[e.i] = (e.r :> [lo |-> e.lo, hi |-> e.hi]) @@ @])
    [] e.k = "ready" -> St({}, [s EXCEPT !.live = {<<"s", i>> : i \in {j \in Spaces(s.c) : s.box[j] # None}}
                                                  \cup {<<"n", i>> : i \in {j \in Nets(s.c) : j \notin SeqSet(s.c.late)}}])
    [] e.k = "proj" -> St({}, [s EXCEPT !.live = @ \cup {<<e.t, e.i>>}])
    [] e.k = "dup" -> St(Ok(e.ok = 1, "C25:projections by name"), s)
    [] e.k = "add" -> St({}, AddAgent(s, e.r, e.u, e.v))
    [] e.k = "rem" -> IF e.u \notin Locals(s, e.r) THEN St({"C05:an agent is local on a rank that does not own it"}, s)
                      ELSE St({}, RemoveAgent(s, e.u))
    [] e.k = "set" -> St({}, IF e.u \in Agents(s) THEN SetState(s, e.u, e.v) ELSE s)
    [] e.k = "move" -> IF e.u \notin Agents(s) THEN St({}, s) ELSE St(MoveCl(s, e), MoveTo(s, e.i, e.u, e.p))
    [] e.k = "edge" -> St({}, AddEdge(s, e.i, e.r, e.u, e.v, e.w))
    [] e.k = "upd" -> IF Key(s.c, e.i, e.u, e.v) \in DOMAIN s.ed[e.i][e.r] THEN St({}, UpdEdge(s, e.i, e.r, e.u, e.v, e.w))
                      ELSE St(Ok(~s.full, "C11:an edge that should not be there"), s)
    [] e.k = "del" -> IF Key(s.c, e.i, e.u, e.v) \in DOMAIN s.ed[e.i][e.r] THEN St({}, DelEdge(s, e.i, e.r, e.u, e.v))
                      ELSE St(Ok(~s.full, "C11:an edge that should not be there"), s)
    [] e.k = "clear" -> St({}, ClearEdges(s, e.i, e.r))
    [] e.k = "req" -> St({}, [s EXCEPT !.pr = @ \cup {<<e.r, u>> : u \in SeqSet(e.us)}])
    [] e.k = "request" -> St({}, RequestAgents([s EXCEPT !.pr = {}], s.pr))
    [] e.k = "ret" -> LET exp == {p[2] : p \in {q \in s.req : q[1] = e.r}} IN
                      St(Ok(SeqSet(e.us) \subseteq exp /\ Cardinality(SeqSet(e.us)) = Len(e.us) /\ SeqSet(e.us) = SeqSet(e.asked),
                            "C08:request_agents did not return exactly the requested agents")
                         \cup Ok(e.same = 1, "C08:request_agents returned another object"), s)
    [] e.k = "mvr" -> St({}, [s EXCEPT !.pr = @ \cup {<<x[1], x[2]>> : x \in SeqSet(e.m)}])
    [] e.k = "mva" -> LET D == [u \in {p[1] : p \in s.pr} |-> (CHOOSE p \in s.pr : p[1] = u)[2]] IN
                      St({}, MoveAgents([s EXCEPT !.pr = {}], D))
    [] e.k = "sync" -> St({}, Synchronize([s EXCEPT !.rst = IF @ > 0 THEN @ - 1 ELSE 0]))
    [] e.k = "csave" -> St({}, [s EXCEPT !.so = (e.r :> e.us) @@ @])
    [] e.k = "save" -> St({}, SaveTo(s, e.slot))
    [] e.k = "restore" -> St({}, RestoreFrom(s, e.slot))
    [] e.k = "other" -> St(Ok(e.ok = 1, "C24:other values are not those saved"), s)
    [] e.k = "nsync" -> St({}, SynchronizeAgents(s))
    [] e.k = "ord" -> LET b == LocalCl(s, e) \cup GhostCl(s, e) IN St(b, IF b = {} THEN Settle(s, e) ELSE s)
    [] e.k = "obs" -> St(ObsCl(s, e), s)
    [] e.k = "query" -> St(QueryCl(s, e), s)

(* what goes wrong between restoring and the first synchronization after it concerns C24 as well *)
CStep(s, e) == IF ~s.dom THEN St({}, s)
               ELSE LET d0 == Do(s, e)
                        d == IF d0.bad = {} /\ ~d0.s.dom THEN [d0 EXCEPT !.bad = IF PrintT("OUT") THEN {} ELSE {}] ELSE d0 IN
                    IF s.rst > 0 THEN [d EXCEPT !.bad = {"C24," \o x : x \in @}] ELSE d
=============================================================================
