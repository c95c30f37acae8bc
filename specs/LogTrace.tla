------------------------------ MODULE LogTrace ------------------------------
(* Events:  open i name cand taken        (rank 0; cand: the names allowed, in order)
   | logs r i rows (reducing: <<tick, v, ..>>; tabular: texts) | write i (collective)
   | meet (every rank is here) | file i head rows (rank 0) | foreign touched
   cfg: n, lg: <<[kind, ops, buf, head], ..>>                                 *)
EXTENDS Log, TraceBase

LInit(cfg) == [c |-> cfg, rows |-> [i \in 1..Len(cfg.lg) |-> [r \in 1..cfg.n |-> <<>>]],
               w |-> [i \in 1..Len(cfg.lg) |-> 0], done |-> [i \in 1..Len(cfg.lg) |-> <<>>]]

K(s, i) == s.c.lg[i].kind
P(s, i) == IF K(s, i) = "red" THEN "C21:" ELSE "C22:"

(* called when every rank has logged its rows *)
Settle(s, i) == [s EXCEPT !.w[i] = Auto(Len(s.rows[i][1]), @, s.c.lg[i].buf)]
Write(s, i) == IF K(s, i) = "red" THEN [s EXCEPT !.w[i] = Len(s.rows[i][1])]
               ELSE [s EXCEPT !.done[i] = @ \o Concat(s.rows[i]), !.rows[i] = [r \in DOMAIN @ |-> <<>>]]
RECURSIVE Each(_, _)
Each(s, i) == IF i = 0 THEN s ELSE Each(IF K(s, i) = "red" THEN Settle(s, i) ELSE s, i - 1)

FileCl(s, e) ==
  LET i == e.i
      c == s.c.lg[i] IN
  Ok(e.head = c.head, P(s, i) \o "the file does not begin with the header")
  \cup (IF c.kind = "red"
        THEN Ok(Len(e.rows) = s.w[i], "C21:the file does not have one row per log call written")
             \cup Ok(\A j \in 1..Len(e.rows) : j > s.w[i] \/ e.rows[j][1] = s.rows[i][1][j][1], "C21:a row does not have the tick of its log call")
             \cup Ok(\A j \in 1..Len(e.rows) : j > s.w[i] \/ e.rows[j] = RedRow(c.ops, s.rows[i], j)
                       \/ e.rows[j][1] # s.rows[i][1][j][1], "C21:a row is not the reduction over the ranks of the values logged")
        ELSE Ok(Len(e.rows) = Len(s.done[i]), "C22:the file does not have every row logged before the last write exactly once")
             \cup Ok(Len(e.rows) # Len(s.done[i]) \/ e.rows = s.done[i], "C22:the rows are not those logged, in rank order and logging order"))

LStep(s, e) ==
  CASE e.k = "open" -> [bad |-> Ok(e.name = FirstFree(e.cand, {e.taken[j] : j \in 1..Len(e.taken)}),
                                   P(s, e.i) \o "the file is not the first free name made from the one given"), s |-> s]
    [] e.k = "logs" -> [bad |-> {}, s |-> [s EXCEPT !.rows[e.i][e.r + 1] = @ \o e.rows]]
    [] e.k = "write" -> [bad |-> {}, s |-> Write(s, e.i)]
    [] e.k = "meet" -> [bad |-> {}, s |-> Each(s, Len(s.c.lg))]
    [] e.k = "file" -> [bad |-> FileCl(s, e), s |-> s]
    [] e.k = "foreign" -> [bad |-> Ok(e.touched = <<>>, "C21,C22:a file that was there before was changed"), s |-> s]
=============================================================================
