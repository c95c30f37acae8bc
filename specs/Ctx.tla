-------------------------------- MODULE Ctx --------------------------------
(* A population of agents shared by the ranks of a communicator, in spaces and
   networks: who owns an agent, who sees it as a ghost, where it is, which
   edges it has, and what a synchronization makes of all that.

   A configuration c:  n ranks,  ty (the types of agents 1..m),  sp: spaces
   (Space configurations plus the buffer size b),  nets: networks (dir or not).

   State:
     own   agent -> the rank it is local to (the agents that exist)
     st    agent -> its state
     dead  the agents that were removed
     ls    rank -> the agents in order of insertion,  arr  rank -> agents that
           arrived by the last synchronization, in no particular order
     loc   space -> agent -> location
     ed    network -> rank -> edge -> attributes, as that rank sees them
     ch    network -> rank -> the edges changed on that rank since the last
           synchronization: <<edge, "a" | "u" | "d">>
     gh    rank -> ghost -> [st: states it may have, own]
     req   pairs <<rank, agent>>: requested ghosts
     buf   space -> rank -> ghost in its buffer -> location
     box   space -> rank -> its part of the space
     live  the projections added so far:  <<"s", i>>, <<"n", i>>
     mv    the agents that changed rank at some time
     dom   FALSE once the history leaves what the package supports
     full  FALSE between a synchronize without ghosts and the next with them

   Anchors: context.py synchronize, move_agents, request_agents, remove;
   core.py AgentManager; space.py _synch_ghosts ..; network.py _synch_ghosts,
   _agents_moved_rank ..; distributed_space.h move.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Sp == INSTANCE Space

Ranks(c) == 0..(c.n - 1)
Spaces(c) == 1..Len(c.sp)
Nets(c) == 1..Len(c.nets)
SeqSet(q) == {q[i] : i \in 1..Len(q)}
None == <<>>      \* the empty function
Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Keep(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]

Init0(c) == [c |-> c, own |-> None, st |-> None, dead |-> {},
             ls |-> [r \in Ranks(c) |-> <<>>], arr |-> [r \in Ranks(c) |-> {}],
             loc |-> [i \in Spaces(c) |-> None],
             ed |-> [i \in Nets(c) |-> [r \in Ranks(c) |-> None]],
             ch |-> [i \in Nets(c) |-> [r \in Ranks(c) |-> {}]],
             gh |-> [r \in Ranks(c) |-> None], req |-> {},
             buf |-> [i \in Spaces(c) |-> [r \in Ranks(c) |-> None]],
             box |-> [i \in Spaces(c) |-> None], live |-> {}, mv |-> {}, pr |-> {}, dom |-> TRUE, full |-> TRUE]

Agents(s) == DOMAIN s.own
Locals(s, r) == {u \in Agents(s) : s.own[u] = r}

(* ---------------------------------------------------------------- locally *)
AddAgent(s, r, u, v) == [s EXCEPT !.own = (u :> r) @@ @, !.st = (u :> v) @@ @, !.ls[r] = Append(@, u)]

SetState(s, u, v) == [s EXCEPT !.st[u] = v]

Touches(e, u) == e[1] = u \/ e[2] = u
Without(f, u) == Drop(f, {e \in DOMAIN f : Touches(e, u)})

RemoveAgent(s, u) ==
  LET r == s.own[u] IN
  [s EXCEPT !.own = Drop(@, {u}), !.st = Drop(@, {u}), !.dead = @ \cup {u},
            !.ls[r] = SelectSeq(@, LAMBDA x : x # u), !.arr[r] = @ \ {u},
            !.loc = [i \in DOMAIN @ |-> Drop(@[i], {u})],
            !.ed = [i \in DOMAIN @ |-> [@[i] EXCEPT ![r] = Without(@, u)]],
            !.ch = [i \in DOMAIN @ |-> [@[i] EXCEPT ![r] = {x \in @ : ~Touches(x[1], u)}]]]

(* what rank r finds at a point: its agents and the ghosts in its buffer *)
AtPoint(s, i, r, q) == {u \in Locals(s, r) : u \in DOMAIN s.loc[i] /\ s.loc[i][u] = q}
                       \cup {u \in DOMAIN s.buf[i][r] : s.buf[i][r][u] = q}
Blocked(s, i, u, q) == s.c.sp[i].occ = "single" /\ AtPoint(s, i, s.own[u], q) \ {u} # {}
MoveTo(s, i, u, p) ==
  LET q == Sp!Border(s.c.sp[i], p) IN
  IF Blocked(s, i, u, q) THEN s ELSE [s EXCEPT !.loc[i] = (u :> q) @@ @]

Key(c, i, u, v) == IF c.nets[i].dir \/ u <= v THEN <<u, v>> ELSE <<v, u>>
Merge(w, x) == [k \in 1..2 |-> IF x[k] # 0 THEN x[k] ELSE w[k]]
Mark(s, i, r, e, how) ==
  LET had == {x \in s.ch[i][r] : x[1] = e} IN
  [s EXCEPT !.ch[i][r] = (@ \ had) \cup {<<e, IF how = "u" /\ had # {} THEN (CHOOSE x \in had : TRUE)[2] ELSE how>>}]
AddEdge(s, i, r, u, v, w) ==
  LET e == Key(s.c, i, u, v)
      f == s.ed[i][r]
      x == IF e \in DOMAIN f THEN Merge(f[e], w) ELSE w IN
  Mark([s EXCEPT !.ed[i][r] = (e :> x) @@ @], i, r, e, "a")
UpdEdge(s, i, r, u, v, w) ==
  LET e == Key(s.c, i, u, v) IN
  Mark([s EXCEPT !.ed[i][r][e] = Merge(@, w)], i, r, e, "u")
DelEdge(s, i, r, u, v) ==
  LET e == Key(s.c, i, u, v) IN
  Mark([s EXCEPT !.ed[i][r] = Drop(@, {e})], i, r, e, "d")
RECURSIVE DelAll(_, _, _, _)
DelAll(s, i, r, E) == IF E = {} THEN s
                      ELSE LET e == CHOOSE x \in E : TRUE IN DelAll(DelEdge(s, i, r, e[1], e[2]), i, r, E \ {e})
ClearEdges(s, i, r) == DelAll(s, i, r, DOMAIN s.ed[i][r])

(* ---------------------------------------------------------------- requests *)
RequestAgents(s, P) ==      \* P: set of <<rank, agent>>
  [s EXCEPT !.req = @ \cup P,
            !.gh = [r \in DOMAIN @ |->
               [u \in {p[2] : p \in {x \in P : x[1] = r}} |->
                   IF u \in DOMAIN @[r] THEN [@[r][u] EXCEPT !.st = @ \cup {s.st[u]}]
                   ELSE [st |-> {s.st[u]}, own |-> s.own[u]]] @@ @[r]]]

(* ------------------------------------------------------------ synchronizing *)
InBox(c, i, b, p) == \A d \in 1..3 : Sp!Used(c.sp[i], d) => b.lo[d] <= p[d] /\ p[d] < b.hi[d]
RankOf(s, i, p) == CHOOSE r \in Ranks(s.c) : InBox(s.c, i, s.box[i][r], p)

(* point p lies within b of the box, with wrap-around if the borders are periodic *)
Near(c, i, b, p) ==
  LET g == c.sp[i] IN
  \A d \in 1..3 : Sp!Used(g, d) =>
     IF g.per = "periodic" THEN (p[d] - (b.lo[d] - g.b)) % (g.hi[d] - g.lo[d]) < (b.hi[d] - b.lo[d]) + 2 * g.b
     ELSE b.lo[d] - g.b <= p[d] /\ p[d] < b.hi[d] + g.b

Homes(s, u) == {RankOf(s, i, s.loc[i][u]) : i \in {j \in Spaces(s.c) : u \in DOMAIN s.loc[j]}}
NewOwn(s) == [u \in Agents(s) |-> IF Homes(s, u) = {} THEN s.own[u] ELSE CHOOSE r \in Homes(s, u) : TRUE]

(* the edge e as all ranks will see it: <<>> if there is none *)
Val(s, i, r, e) == IF e \in DOMAIN s.ed[i][r] THEN <<s.ed[i][r][e]>> ELSE <<>>
Truth(s, i, e) ==
  LET A == s.own[e[1]]
      B == s.own[e[2]]
      va == Val(s, i, A, e)
      vb == Val(s, i, B, e)
      ca == {x \in s.ch[i][A] : x[1] = e}
      cb == {x \in s.ch[i][B] : x[1] = e} IN
  IF A = B \/ cb = {} THEN va
  ELSE IF ca = {} THEN vb
  ELSE IF va = <<>> \/ vb = <<>> THEN <<>> ELSE va
Conflict(s, i, e) ==      \* changes of both ranks that have no one outcome
  LET A == s.own[e[1]]
      B == s.own[e[2]]
      ca == {x[2] : x \in {y \in s.ch[i][A] : y[1] = e}}
      cb == {x[2] : x \in {y \in s.ch[i][B] : y[1] = e}}
      a1 == Val(s, i, A, e)
      b1 == Val(s, i, B, e) IN
  /\ A # B /\ ca # {} /\ cb # {}
  /\ IF a1 = <<>> \/ b1 = <<>> THEN "a" \in ca \cup cb ELSE a1 # b1

Edges(s, i) == UNION {DOMAIN s.ed[i][r] : r \in Ranks(s.c)}
Both(s, e) == e[1] \in Agents(s) /\ e[2] \in Agents(s)

Supported(s, own2) ==
  /\ \A u \in Agents(s) : Cardinality(Homes(s, u)) <= 1
  /\ \A i \in Spaces(s.c) : s.c.sp[i].occ = "single" =>
        \A u, v \in DOMAIN s.loc[i] : s.loc[i][u] = s.loc[i][v] => u = v
  /\ \A i \in Spaces(s.c) : \A r \in DOMAIN s.box[i] : \A d \in 1..3 : Sp!Used(s.c.sp[i], d) =>
        s.c.sp[i].b <= s.box[i][r].hi[d] - s.box[i][r].lo[d]
  /\ \A i \in Nets(s.c) : \A e \in Edges(s, i) : Both(s, e) => ~Conflict(s, i, e)

(* everything a synchronization does to agents and locations *)
Relocate(s, own2) ==
  LET to(r) == {u \in Agents(s) : own2[u] = r /\ s.own[u] # r} IN
  [s EXCEPT !.own = own2,
            !.ls = [r \in DOMAIN @ |-> SelectSeq(@[r], LAMBDA u : own2[u] = r)],
            !.arr = [r \in DOMAIN @ |-> to(r)],
            !.req = {p \in @ : p[2] \in DOMAIN own2 /\ own2[p[2]] # p[1]},   \* a request ends when its agent is local
            !.mv = @ \cup UNION {to(r) : r \in Ranks(s.c)}]

(* .. and to what the ranks see of each other *)
Share(s, t) ==      \* s: before (old owners), t: after Relocate
  LET c == s.c
      own2 == t.own
      bufs == [i \in Spaces(c) |-> [r \in Ranks(c) |->
                 IF c.sp[i].b = 0 \/ <<"s", i>> \notin s.live THEN None
                 ELSE Keep(t.loc[i], {u \in DOMAIN t.loc[i] : own2[u] # r /\ Near(c, i, t.box[i][r], t.loc[i][u])})]]
      all == [i \in Nets(c) |-> {e \in Edges(s, i) : Both(s, e)}]
      val == [i \in Nets(c) |-> [e \in all[i] |-> Truth(s, i, e)]]
      eds == [i \in Nets(c) |-> [r \in Ranks(c) |->
                 LET E == {e \in all[i] : val[i][e] # <<>> /\ r \in {own2[e[1]], own2[e[2]]}} IN
                 [e \in E |-> val[i][e][1]]]]
      gset == [r \in Ranks(c) |->
                 {p[2] : p \in {q \in t.req : q[1] = r}}
                 \cup UNION {DOMAIN bufs[i][r] : i \in Spaces(c)}
                 \cup {u \in UNION {{e[1], e[2]} : e \in UNION {DOMAIN eds[i][r] : i \in Nets(c)}} : own2[u] # r}] IN
  [t EXCEPT !.buf = bufs, !.ed = eds,
            !.ch = [i \in DOMAIN @ |-> [r \in Ranks(c) |-> {}]],
            !.gh = [r \in Ranks(c) |-> [u \in gset[r] |-> [st |-> {t.st[u]}, own |-> own2[u]]]],
            !.full = TRUE]

Sync(s, own2) == IF ~Supported(s, own2) THEN [s EXCEPT !.dom = FALSE]
                 ELSE Share(s, Relocate(s, own2))
Synchronize(s) == Sync(s, NewOwn(s))
(* without ghosts: nothing is said about what a rank sees of the others until the next full one *)
SynchronizeAgents(s) == IF ~Supported(s, NewOwn(s)) THEN [s EXCEPT !.dom = FALSE]
                        ELSE [Relocate(s, NewOwn(s)) EXCEPT !.full = FALSE]
(* an agent that is moved explicitly has no location on its new rank; D: agent -> rank *)
MoveAgents(s, D) ==
  LET t == [s EXCEPT !.loc = [i \in DOMAIN @ |-> Drop(@[i], DOMAIN D)]]
      o == NewOwn(t)
      own2 == [u \in Agents(s) |-> IF u \in DOMAIN D THEN D[u] ELSE o[u]] IN
  IF ~Supported(t, own2) THEN [s EXCEPT !.dom = FALSE] ELSE Share(t, Relocate(t, own2))

(* ------------------------------------------------- what holds of every state *)
OwnedOnce(s) == \A u \in Agents(s) :
  Cardinality({<<r, k>> \in Ranks(s.c) \X (1..20) : k <= Len(s.ls[r]) /\ s.ls[r][k] = u})
    + Cardinality({r \in Ranks(s.c) : u \in s.arr[r]}) = 1
NoDead(s) == /\ s.dead \cap Agents(s) = {}
             /\ \A i \in Nets(s.c) : \A u \in s.dead : \A e \in DOMAIN s.ed[i][0] : TRUE
=============================================================================
