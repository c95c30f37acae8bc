------------------------------- MODULE LogMC -------------------------------
(* The algorithm of the loggers with arrays that grow, buffers, and collective
   operations that only the root waits for, against what the file must be.
   Every rank runs the same program of calls, L(og) and W(rite), at its own
   pace.                                                                     *)
EXTENDS Log, TLC
CONSTANTS R, Grow, Buf, Calls
VARIABLES prog, pc, kept,        \* calls; position; logged, not yet written (per rank)
          arr, idx,              \* the logger's array and how much of it is used
          box,                   \* contributions on the way to the root, per rank
          file, tfile, wait      \* root is waiting in a write
vars == <<prog, pc, kept, arr, idx, box, file, tfile, wait>>
Rk == 0..(R - 1)
Val(r, j) == j * 10 + r        \* what rank r logs in its j-th call
NLogs(p, k) == Cardinality({i \in 1..k : p[i] = "L"})
Zeros(n) == [i \in 1..n |-> 0]

Init == /\ prog \in UNION {[1..k -> {"L", "W"}] : k \in 1..Calls}
        /\ pc = [r \in Rk |-> 0] /\ kept = [r \in Rk |-> <<>>]
        /\ arr = [r \in Rk |-> Zeros(Grow)] /\ idx = [r \in Rk |-> 0]
        /\ box = [r \in Rk |-> <<>>] /\ file = <<>> /\ tfile = <<>> /\ wait = FALSE

Put(r, j) == LET a == IF idx[r] = Len(arr[r]) THEN arr[r] \o Zeros(Grow) ELSE arr[r]
             IN [a EXCEPT ![idx[r] + 1] = Val(r, j)]
(* a write on rank r: a contribution to the reduction and to the gathering *)
Give(r, a, n, rows) == box' = [box EXCEPT ![r] = Append(@, <<SubSeq(a, 1, n), rows>>)]
Call(r) ==
  /\ pc[r] < Len(prog) /\ (r = 0 => ~wait)
  /\ pc' = [pc EXCEPT ![r] = @ + 1] /\ UNCHANGED <<prog, file, tfile>>
  /\ LET j == NLogs(prog, pc[r] + 1)
         log == prog[pc[r] + 1] = "L"
         a == IF log THEN Put(r, j) ELSE arr[r]
         n == IF log THEN idx[r] + 1 ELSE idx[r]
         rows == IF log THEN Append(kept[r], Val(r, j)) ELSE kept[r]
         w == ~log \/ n >= Buf IN
     /\ arr' = [arr EXCEPT ![r] = a]
     /\ idx' = [idx EXCEPT ![r] = IF w THEN 0 ELSE n]
     /\ kept' = [kept EXCEPT ![r] = IF w THEN <<>> ELSE rows]
     /\ IF w THEN Give(r, a, n, rows) ELSE UNCHANGED box
     /\ wait' = IF r = 0 THEN w ELSE wait
Root == /\ wait /\ \A r \in Rk : box[r] # <<>>
        /\ LET n == Len(box[0][1][1]) IN
           file' = file \o [i \in 1..n |-> Red("sum", [r \in 1..R |-> box[r - 1][1][1][i]])]
        /\ tfile' = tfile \o Concat([r \in 1..R |-> box[r - 1][1][2]])
        /\ box' = [r \in Rk |-> Tail(box[r])] /\ wait' = FALSE
        /\ UNCHANGED <<prog, pc, kept, arr, idx>>
Next == Root \/ \E r \in Rk : Call(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Rows == [r \in 1..R |-> [j \in 1..Calls |-> <<j, Val(r - 1, j)>>]]
RowsRight == \A j \in 1..Len(file) : <<j, file[j]>> = RedRow(<<"sum">>, Rows, j)
NeverAhead == Len(file) <= NLogs(prog, pc[0])
BufferBound == ~wait => NLogs(prog, pc[0]) - Len(file) < Buf
WrittenAfterWrite == (~wait /\ pc[0] > 0 /\ prog[pc[0]] = "W") => Len(file) = NLogs(prog, pc[0])
TableOnce == \A r \in Rk : SelectSeq(tfile, LAMBDA x : x % 10 = r) = [j \in 1..Len(file) |-> Val(r, j)]
Alike == \A r \in Rk : \A i \in 1..Len(box[r]) : i <= Len(box[0]) => Len(box[r][i][1]) = Len(box[0][i][1])
Ends == <>[](\A r \in Rk : pc[r] = Len(prog) /\ ~wait)
=============================================================================
