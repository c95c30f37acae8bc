-------------------------------- MODULE VLMC --------------------------------
(* A read-write layer (a plain shared layer is its special case without swaps) on a few
   ranks: writes, swaps and synchronizations in every order.                          *)
EXTENDS VL, TLC, Json
CONSTANTS P1, P2, E1, E2, B, Per, Vals, Depth, Gen
VARIABLES L,        \* rank |-> <<store, store>>
          rd,       \* the one read from
          shown,    \* what reads have been allowed to show since the last swap or synchronize
          n, prog
vars == <<L, rd, shown, n, prog>>

NegOne == -1
c == [dims |-> IF E2 = 0 THEN 1 ELSE 2, p |-> IF E2 = 0 THEN <<P1>> ELSE <<P1, P2>>,
      lo |-> IF E2 = 0 THEN <<NegOne>> ELSE <<NegOne, 2>>, ext |-> IF E2 = 0 THEN <<E1>> ELSE <<E1, E2>>,
      per |-> Per, b |-> IF P1 * P2 = 1 THEN 0 ELSE B]
Ranks == 0..(Size(c) - 1)
Box(r) == RankBox(c, r)
Boxes == [r \in Ranks |-> Box(r)]

Init == /\ L = [r \in Ranks |-> <<Fill(c, Box(r), 0), Fill(c, Box(r), 0)>>]
        /\ rd = 1 /\ n = 0 /\ prog = <<>>
        /\ shown = [r \in Ranks |-> L[r][1]]

Log(e) == /\ n < Depth /\ n' = n + 1
          /\ prog' = IF Gen THEN Append(prog, e) ELSE <<>>
          /\ (Gen /\ n' = Depth) => PrintT("PROG " \o ToJson(prog'))

DoSet(r, q, v) == /\ L' = [L EXCEPT ![r][3 - rd] = Set(c, Box(r), @, q, v)]
                  /\ UNCHANGED <<rd, shown>>
                  /\ Log([k |-> "set", r |-> r, p |-> q, v |-> v])
Swap == /\ rd' = 3 - rd
        /\ shown' = [r \in Ranks |-> L[r][3 - rd]]
        /\ UNCHANGED L
        /\ Log([k |-> "swap"])
Sync == /\ LET S(i) == SyncAll(c, Boxes, [r \in Ranks |-> L[r][i]])
               S1 == S(1)
               S2 == S(2)
           IN L' = [r \in Ranks |-> <<S1[r], S2[r]>>]
        /\ shown' = [r \in Ranks |-> L'[r][rd]]
        /\ UNCHANGED rd
        /\ Log([k |-> "sync"])
Next == \/ \E r \in Ranks : \E q \in DOMAIN L[r][1], v \in Vals : DoSet(r, q, v)
        \/ Swap \/ Sync
Spec == Init /\ [][Next]_vars

(* reads only show what was there before the last swap *)
Isolated == \A r \in Ranks : L[r][rd] = shown[r]
OwnKept == [][Sync => \A r \in Ranks : \A q \in DOMAIN L[r][1] : InBox(c, Box(r), q) => L'[r][1][q] = L[r][1][q] /\ L'[r][2][q] = L[r][2][q]]_vars
BuffersTrue == [][Sync => \A r \in Ranks : \A q \in DOMAIN L[r][1] : \A i \in {1, 2} :
                    L'[r][i][q] = L'[Owner(c, Boxes, q)][i][Cell(c, q)]]_vars
OneCell == [][Sync \/ Cardinality({<<t, i, x>> \in UNION {{<<u, j, y>> : j \in {1, 2}, y \in DOMAIN L[u][1]} : u \in Ranks} :
                                   L'[t][i][x] # L[t][i][x]}) <= 1]_vars
(* every position of a window is some owner's cell, and every own cell is in the window *)
Covered == \A r \in Ranks : \A q \in DOMAIN L[r][1] :
             /\ \E o \in Ranks : InBox(c, Box(o), Cell(c, q))
             /\ Cell(c, Resolve(c, Box(r), Cell(c, q))) = Cell(c, q)
NghsSeen == B > 0 => \A r \in Ranks : \A q \in DOMAIN L[r][1] : InBox(c, Box(r), q) =>
               \A m \in NghCells(c, q) : Visible(c, Box(r), m)
=============================================================================
