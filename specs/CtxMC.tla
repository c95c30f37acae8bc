------------------------------- MODULE CtxMC -------------------------------
(* All short histories of a small population: NR ranks, NA agents, a one dimensional
   space (if Ext > 0) and a network (if Net # "none"), with every operation Ctx has.
   Beside the state of Ctx the model keeps what one observer of all calls would
   expect, without ranks: who exists, with which state and location, and the graph. *)
EXTENDS CtxCk, Json
CONSTANTS NR, NA, Ext, B, Per, Net, Ops, Depth, Gen
VARIABLES s, ideal, kept, fresh, n, prog
vars == <<s, ideal, kept, fresh, n, prog>>

As == 1..NA
sp == [kind |-> "grid", per |-> Per, occ |-> "multi", lo |-> <<0, 0, 0>>, hi |-> <<Ext, 0, 0>>, b |-> B]
cfg == [n |-> NR, ty |-> [u \in As |-> u % 2], sp |-> IF Ext > 0 THEN <<sp>> ELSE <<>>,
        nets |-> IF Net = "none" THEN <<>> ELSE <<[dir |-> Net = "directed"]>>, late |-> <<>>]
W == Ext \div NR
Boxes == [r \in 0..(NR - 1) |-> [lo |-> <<r * W, 0, 0>>, hi |-> <<IF r = NR - 1 THEN Ext ELSE (r + 1) * W, 0, 0>>]]

Init == /\ s = [WithSlots(Init0(cfg)) EXCEPT !.box = [i \in Spaces(cfg) |-> Boxes],
                                  !.live = {<<"s", i>> : i \in Spaces(cfg)} \cup {<<"n", i>> : i \in Nets(cfg)}]
        /\ ideal = [st |-> None, loc |-> None, g |-> None]
        /\ kept = None
        /\ fresh = FALSE /\ n = 0 /\ prog = <<>>

Log(e) == /\ n < Depth /\ n' = n + 1
          /\ prog' = IF Gen THEN Append(prog, e) ELSE <<>>
          /\ (Gen /\ n' = Depth) => PrintT("PROG " \o ToJson(prog'))
On(k) == k \in Ops
Local == fresh' = FALSE

Add(r, u) == /\ On("add") /\ u \notin Agents(s) \cup s.dead
             /\ s' = AddAgent(s, r, u, n) /\ Local
             /\ ideal' = [ideal EXCEPT !.st = (u :> n) @@ @]
             /\ Log([k |-> "add", u |-> u, v |-> n, r |-> r])
Rem(u) == /\ On("rem") /\ u \in Agents(s)
          /\ s' = RemoveAgent(s, u) /\ Local
          /\ ideal' = [st |-> Drop(ideal.st, {u}), loc |-> Drop(ideal.loc, {u}), g |-> Without(ideal.g, u)]
          /\ Log([k |-> "rem", u |-> u])
Set(u) == /\ On("set") /\ u \in Agents(s)
          /\ s' = SetState(s, u, n + 100) /\ Local
          /\ ideal' = [ideal EXCEPT !.st[u] = n + 100]
          /\ Log([k |-> "set", u |-> u, v |-> n + 100])
Move(u, x) == /\ On("move") /\ u \in Agents(s) /\ Ext > 0
              /\ s' = MoveTo(s, 1, u, <<x, 0, 0>>) /\ Local
              /\ ideal' = [ideal EXCEPT !.loc = (u :> Sp!Border(sp, <<x, 0, 0>>)[1]) @@ @]
              /\ Log([k |-> "move", u |-> u, i |-> <<0>>, p |-> <<x, 0, 0>>])
(* a rank can link two agents if one is local and it has the other *)
Has(r, u) == (u \in Agents(s) /\ s.own[u] = r) \/ u \in DOMAIN s.gh[r]
CanLink(r, u, v) == /\ Net # "none" /\ u # v /\ {u, v} \subseteq Agents(s) /\ Has(r, u) /\ Has(r, v)
                    /\ s.own[u] = r \/ s.own[v] = r
Side(r, u) == IF s.own[u] = r THEN 0 ELSE 1
Entry(r, u, v, k, w) == [k |-> k, i |-> 0, u |-> u, v |-> v, side |-> Side(r, u), w |-> w]
Ws == {<<1, 0>>, <<0, n + 2>>}
Edge(r, u, v, w) == /\ On("edge") /\ CanLink(r, u, v)
                    /\ s' = AddEdge(s, 1, r, u, v, w) /\ Local
                    /\ LET e == Key(cfg, 1, u, v) IN
                       ideal' = [ideal EXCEPT !.g = (e :> IF e \in DOMAIN @ THEN Merge(@[e], w) ELSE w) @@ @]
                    /\ Log(Entry(r, u, v, "edge", w))
Upd(r, u, v, w) == /\ On("upd") /\ CanLink(r, u, v) /\ Key(cfg, 1, u, v) \in DOMAIN s.ed[1][r]
                   /\ s' = UpdEdge(s, 1, r, u, v, w) /\ Local
                   /\ LET e == Key(cfg, 1, u, v) IN
                      ideal' = IF e \in DOMAIN ideal.g THEN [ideal EXCEPT !.g[e] = Merge(@, w)] ELSE ideal
                   /\ Log(Entry(r, u, v, "upd", w))
Del(r, u, v) == /\ On("del") /\ CanLink(r, u, v) /\ Key(cfg, 1, u, v) \in DOMAIN s.ed[1][r]
                /\ s' = DelEdge(s, 1, r, u, v) /\ Local
                /\ ideal' = [ideal EXCEPT !.g = Drop(@, {Key(cfg, 1, u, v)})]
                /\ Log(Entry(r, u, v, "del", <<0, 0>>))
Request(r, u) == /\ On("request") /\ u \in Agents(s) /\ s.own[u] # r
                 /\ s' = RequestAgents(s, {<<r, u>>}) /\ Local /\ UNCHANGED ideal
                 /\ Log([k |-> "request", q |-> <<<<r, u>>>>])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Sorted(S \ {x})
(* some order for those that arrived *)
Settled(t) == [t EXCEPT !.ls = [r \in DOMAIN @ |-> @[r] \o Sorted(t.arr[r])], !.arr = [r \in DOMAIN @ |-> {}]]
DoSync == /\ s' = Settled(Synchronize(s)) /\ fresh' = TRUE /\ UNCHANGED ideal /\ Log([k |-> "sync"])
NoGhosts == /\ On("nsync") /\ s' = Settled(SynchronizeAgents(s)) /\ fresh' = FALSE /\ UNCHANGED ideal /\ Log([k |-> "nsync"])
MoveTo2(D) == /\ On("mva")
              /\ s' = Settled(MoveAgents(s, D)) /\ fresh' = TRUE
              /\ ideal' = [ideal EXCEPT !.loc = Drop(@, DOMAIN D)]
              /\ Log([k |-> "mva", m |-> [i \in 1..Cardinality(DOMAIN D) |->
                         LET u == CHOOSE x \in DOMAIN D : Cardinality({y \in DOMAIN D : y < x}) = i - 1 IN <<u, D[u]>>]])
(* checkpoints; kept is what was expected when saving *)
Save == /\ On("save") /\ Savable(s) /\ 1 \notin DOMAIN s.sv
        /\ s' = SaveTo([s EXCEPT !.so = s.ls], 1) /\ kept' = (1 :> ideal) /\ UNCHANGED <<ideal, fresh>>
        /\ Log([k |-> "save", slot |-> 1, seed |-> n, file |-> n % 2 = 0])
Restore == /\ On("restore") /\ 1 \in DOMAIN s.sv
           /\ s' = RestoreFrom(s, 1) /\ ideal' = kept[1] /\ fresh' = FALSE /\ UNCHANGED kept
           /\ Log([k |-> "restore", slot |-> 1, seed |-> n])
Dests == UNION {{D \in [S -> Ranks(cfg)] : \A u \in S : D[u] # s.own[u]} : S \in {T \in SUBSET Agents(s) : T # {} /\ Cardinality(T) <= 2}}

Changes ==
           \/ \E r \in Ranks(cfg), u \in As : Add(r, u) \/ Request(r, u)
           \/ \E u \in As : Rem(u) \/ Set(u) \/ \E x \in 0..(Ext - 1) : Move(u, x)
           \/ \E r \in Ranks(cfg), u, v \in As : Del(r, u, v) \/ \E w \in Ws : Edge(r, u, v, w) \/ Upd(r, u, v, w)
           \/ DoSync \/ NoGhosts
           \/ \E D \in Dests : MoveTo2(D)
Next == s.dom /\ ((Changes /\ UNCHANGED kept) \/ Save \/ Restore)
Spec == Init /\ [][Next]_vars

(* C05: the agents are those added and not removed, each once, with the last state set *)
Population == /\ Agents(s) = DOMAIN ideal.st /\ s.st = ideal.st /\ s.dead \cap Agents(s) = {}
              /\ OwnedOnce(s)
(* C06, C15 *)
Locations == Ext > 0 => /\ DOMAIN s.loc[1] = DOMAIN ideal.loc
                        /\ \A u \in DOMAIN ideal.loc : s.loc[1][u][1] = ideal.loc[u]
                        /\ fresh /\ s.dom => \A u \in DOMAIN ideal.loc :
                              LET b == Boxes[s.own[u]] IN b.lo[1] <= ideal.loc[u] /\ ideal.loc[u] < b.hi[1]
(* C07: distances over the images of a point *)
Dist(r, x) == LET b == Boxes[r]
                  d(y) == IF y < b.lo[1] THEN b.lo[1] - y ELSE IF y >= b.hi[1] THEN y - b.hi[1] + 1 ELSE 0
                  img == IF Per = "periodic" THEN {x - Ext, x, x + Ext} ELSE {x} IN
              CHOOSE k \in {d(y) : y \in img} : \A y \in img : k <= d(y)
Buffers == Ext > 0 /\ fresh /\ s.dom => \A r \in Ranks(cfg) :
              LET here == {u \in DOMAIN ideal.loc : s.own[u] # r /\ Dist(r, ideal.loc[u]) <= B} IN
              DOMAIN s.buf[1][r] = (IF B = 0 THEN {} ELSE here) /\ \A u \in DOMAIN s.buf[1][r] : s.buf[1][r][u][1] = ideal.loc[u]
(* C11, C12: the ranks' parts make up the one graph, whatever moved *)
Graph == Net # "none" /\ fresh /\ s.dom => \A r \in Ranks(cfg) :
            s.ed[1][r] = Keep(ideal.g, {e \in DOMAIN ideal.g : r \in {s.own[e[1]], s.own[e[2]]}})
(* C08 *)
Ghosts == fresh /\ s.dom => \A r \in Ranks(cfg) :
            /\ \A u \in DOMAIN s.gh[r] : u \in Agents(s) /\ s.own[u] # r /\ s.gh[r][u] = [st |-> {ideal.st[u]}, own |-> s.own[u]]
            /\ \A u \in Agents(s) : s.own[u] # r => (u \in DOMAIN s.gh[r] <=>
                  \/ <<r, u>> \in s.req
                  \/ Ext > 0 /\ B > 0 /\ u \in DOMAIN ideal.loc /\ Dist(r, ideal.loc[u]) <= B
                  \/ Net # "none" /\ \E e \in DOMAIN ideal.g : Touches(e, u) /\ \E v \in {e[1], e[2]} : s.own[v] = r)
(* C09 *)
Gone == \A u \in s.dead : /\ \A i \in Spaces(cfg) : u \notin DOMAIN s.loc[i]
                          /\ fresh => \A r \in Ranks(cfg) : u \notin DOMAIN s.gh[r]
(* C25 *)
Order == \A r \in Ranks(cfg) : SeqSet(s.ls[r]) \cup s.arr[r] = Locals(s, r)
(* C24: a restored context is the saved one but for what the next synchronization makes of it *)
Same == \A k \in DOMAIN s.sv : LET t == s.sv[k]
                                   a == Synchronize([t EXCEPT !.req = {}])
                                   b == Synchronize([Restored(t, t.so) EXCEPT !.req = {}]) IN
          /\ a.dom = b.dom
          /\ a.dom => a.own = b.own /\ a.st = b.st /\ a.loc = b.loc /\ a.ed = b.ed /\ a.gh = b.gh /\ a.buf = b.buf
(* a synchronization changes no edge, state or location *)
Quiet == [][(DoSync \/ NoGhosts) => s'.st = s.st /\ s'.loc = s.loc]_vars
=============================================================================
