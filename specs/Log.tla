-------------------------------- MODULE Log --------------------------------
(* Logging over several ranks: what a file must contain.

   A reducing data set: every rank logs rows <<tick, value, ..>>; row j of the
   file is the tick of rank 0's j-th call and, per logger, the reduction of
   what all ranks logged in their j-th call.  Rows are written by write, close
   and when buffer-size rows are waiting.
   A tabular logger: every rank logs rows; a write appends the rows waiting on
   rank 0, then those on rank 1, and so on.

   Anchors: logging.py ReducingDataLogger, ReducingDataSet, TabularLogger;
   util.py find_free_filename                                                *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Red(_, _)
Op2(op, a, b) == CASE op = "sum" -> a + b
                   [] op = "min" -> IF a <= b THEN a ELSE b
                   [] op = "max" -> IF a >= b THEN a ELSE b
Red(op, q) == IF Len(q) = 1 THEN q[1] ELSE Op2(op, q[1], Red(op, Tail(q)))

(* rows: sequence (by rank + 1) of sequences of <<tick, v1, .., vk>>;  ops: op of logger 1..k *)
RedRow(ops, rows, j) == <<rows[1][j][1]>> \o [l \in 1..Len(ops) |-> Red(ops[l], [r \in 1..Len(rows) |-> rows[r][j][l + 1]])]

(* rows on file after m calls, w of which were on file before, with a buffer of b *)
RECURSIVE Auto(_, _, _)
Auto(m, w, b) == IF b < 1 THEN m ELSE w + ((m - w) \div b) * b

RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE qs[1] \o Concat(Tail(qs))

(* the first name that no file has *)
FirstFree(cand, taken) == LET k == CHOOSE k \in 1..Len(cand) : cand[k] \notin taken /\ \A j \in 1..(k - 1) : cand[j] \in taken
                          IN cand[k]
=============================================================================
