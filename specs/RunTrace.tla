------------------------------- MODULE RunTrace -------------------------------
(* Several runs of one program, in one process and in others: what a run does, on
   every rank, is a function of the program and its seed.
     k = "run":  run j begins
     k = "e":    rank r did or saw v next                                        *)
EXTENDS Integers, Sequences, FiniteSets, TraceBase

RInit(cfg) == [j |-> 0, log |-> <<>>, at |-> 0]
S(b, s) == [bad |-> b, s |-> s]
RStep(s, e) ==
  CASE e.k = "run" -> S(Ok(e.j <= 2 \/ s.at = Len(s.log), "C26:a run of the same program ended early"), [s EXCEPT !.j = e.j, !.at = 0])
    [] e.k = "end" -> S(Ok(s.j = 1 \/ s.at = Len(s.log), "C26:a run of the same program ended early"), s)
    [] e.k = "e" -> IF s.j = 1 THEN S({}, [s EXCEPT !.log = Append(@, <<e.r, e.v>>)])
                    ELSE S(Ok(s.at < Len(s.log) /\ s.log[s.at + 1] = <<e.r, e.v>>, "C26:a run of the same program went differently"),
                           [s EXCEPT !.at = @ + 1])
=============================================================================
