----------------------------- MODULE NetFileMC -----------------------------
(* How the reader does it, rank by rank and line by line, against the meaning;
   and the partition: every shuffle of the tiled ranks.                      *)
EXTENDS NetFile, SequencesExt
CONSTANTS N, P, MaxEdges, Dup     \* Dup: edges may be given twice, in either order
VARIABLES own, edges, dir, line, ag, rem, req, later, gr, done
vars == <<own, edges, dir, line, ag, rem, req, later, gr, done>>
Nodes == 1..N
Ranks == 0..(P - 1)
Lines == [i \in 1..N |-> <<"n", i, own[i]>>] \o [i \in 1..Len(edges) |-> <<"e", edges[i][1], edges[i][2]>>]

Pairs == Nodes \X Nodes
Init == /\ own \in [Nodes -> Ranks] /\ dir \in BOOLEAN
        /\ edges \in UNION {[1..k -> Pairs] : k \in 0..MaxEdges}
        /\ (~Dup => \A i, j \in 1..Len(edges) : FKey(dir, edges[i][1], edges[i][2]) = FKey(dir, edges[j][1], edges[j][2]) => i = j)
        /\ line = [r \in Ranks |-> 1] /\ ag = [r \in Ranks |-> {}] /\ rem = [r \in Ranks |-> {}]
        /\ req = [r \in Ranks |-> <<>>] /\ later = [r \in Ranks |-> <<>>]
        /\ gr = [r \in Ranks |-> {}] /\ done = 0

(* one line on one rank *)
Parse(r) ==
  /\ done = 0 /\ line[r] <= Len(Lines)
  /\ line' = [line EXCEPT ![r] = @ + 1]
  /\ LET l == Lines[line[r]] IN
     IF l[1] = "n"
     THEN /\ IF l[3] = r THEN ag' = [ag EXCEPT ![r] = @ \cup {l[2]}] /\ UNCHANGED rem
             ELSE rem' = [rem EXCEPT ![r] = @ \cup {l[2]}] /\ UNCHANGED ag
          /\ UNCHANGED <<req, later, gr>>
     ELSE LET u == l[2]  v == l[3]  uin == u \in ag[r]  vin == v \in ag[r] IN
          /\ UNCHANGED <<ag, rem>>
          /\ IF uin /\ vin THEN gr' = [gr EXCEPT ![r] = @ \cup {FKey(dir, u, v)}] /\ UNCHANGED <<req, later>>
             ELSE IF ~uin /\ ~vin THEN UNCHANGED <<req, later, gr>>
             ELSE /\ req' = [req EXCEPT ![r] = Append(@, IF uin THEN v ELSE u)]
                  /\ later' = [later EXCEPT ![r] = Append(@, <<u, v>>)]
                  /\ UNCHANGED gr
  /\ UNCHANGED <<own, edges, dir, done>>

(* the ranks are independent up to the request, which is collective: TLC need
   only look at one order of the lines of different ranks *)
Turn(r) == \A q \in Ranks : q < r => line[q] > Len(Lines)
Request == /\ done = 0 /\ \A r \in Ranks : line[r] > Len(Lines)
           /\ ag' = [r \in Ranks |-> ag[r] \cup {req[r][i] : i \in 1..Len(req[r])}] /\ done' = 1
           /\ UNCHANGED <<own, edges, dir, line, rem, req, later, gr>>
Create == /\ done = 1 /\ done' = 2
          /\ gr' = [r \in Ranks |-> gr[r] \cup {FKey(dir, later[r][i][1], later[r][i][2]) : i \in 1..Len(later[r])}]
          /\ UNCHANGED <<own, edges, dir, line, ag, rem, req, later>>
Sync == /\ done = 2 /\ done' = 3     \* new edges go to the rank of the far end
        /\ gr' = [r \in Ranks |-> gr[r] \cup {e \in UNION {gr[q] : q \in Ranks} : own[e[1]] = r \/ own[e[2]] = r}]
        /\ UNCHANGED <<own, edges, dir, line, ag, rem, req, later>>
Next == (\E r \in Ranks : Turn(r) /\ Parse(r)) \/ Request \/ Create \/ Sync
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ed == [e \in {FKey(dir, edges[i][1], edges[i][2]) : i \in 1..Len(edges)} |-> {}]
(* the sync has nothing left to do, and the result is the graph *)
Whole == done >= 2 => \A r \in Ranks :
   /\ gr[r] = Seen(own, Ed, r)
   /\ ag[r] = Mine(own, r) \cup GhostsOf(own, Ed, r)
Known == \A r \in Ranks : line[r] > N => ag[r] \cup rem[r] = Nodes \/ done > 0
AllEdges == done >= 2 => UNION {gr[r] : r \in Ranks} = DOMAIN Ed
OneGhost == done >= 1 => \A r \in Ranks : \A u \in ag[r] : u \in Mine(own, r) \/ u \in rem[r]
Reads == <>(done = 3)

(* the partition algorithm: the ranks tiled, shuffled, cut to the number of nodes *)
Tiled == [i \in 1..(P * Ceil(N, P)) |-> (i - 1) % P]
Perms == {f \in [1..Len(Tiled) -> 1..Len(Tiled)] : \A i, j \in 1..Len(Tiled) : f[i] = f[j] => i = j}
ASSUME Len(Tiled) > 6 \/ \A f \in Perms : GoodPartition(Nodes, [u \in Nodes |-> Tiled[f[u]]], P)
=============================================================================
