------------------------------- MODULE SchedMC -------------------------------
(* Closed model of Sched: callables schedule, void and stop arbitrarily.  Used
   (a) exhaustively, to check the properties on the specification itself, and
   (b) to generate the programs that are replayed in the code: prog records, for
       every operation, the execution (event id, occurrence) that performs it.  *)
EXTENDS Sched, Json

CONSTANTS NEv,        \* events per behaviour
          NOps,       \* other operations (void, stop)
          Ats, Pts, Prs, Ivs, Horizon,
          Gen         \* TRUE: record and print programs

VARIABLES s, log, cur, nev, nops, prog, fin

vars == <<s, log, cur, nev, nops, prog, fin>>

Occ(id) == Cardinality({j \in 1..Len(log) : log[j].id = id})
Note(op) == prog' = IF Gen THEN Append(prog, [by |-> cur, occ |-> IF cur = 0 THEN 0 ELSE Occ(cur), op |-> op]) ELSE prog

Init == s = S0 /\ log = <<>> /\ cur = 0 /\ nev = 0 /\ nops = 0 /\ prog = <<>> /\ fin = FALSE

DoSched == \E at \in Ats, pt \in Pts, pr \in Prs, iv \in Ivs :
  /\ nev < NEv
  /\ (pt # BYPR) => pr = MinOf(Prs)
  /\ nev' = nev + 1
  /\ s' = Schedule(s, nev + 1, at, pt, pr, iv, "evt")
  /\ Note([k |-> "sched", id |-> nev + 1, at |-> at, pt |-> pt, pr |-> pr, iv |-> iv])
  /\ UNCHANGED <<log, cur, nops, fin>>

DoVoid == \E id \in 1..nev :
  /\ nops < NOps /\ id \notin s.voided
  /\ nops' = nops + 1
  /\ s' = Void(s, id)
  /\ Note([k |-> "void", id |-> id])
  /\ UNCHANGED <<log, cur, nev, fin>>

DoStop ==
  /\ nops < NOps /\ cur # 0 /\ ~s.stopNow
  /\ nops' = nops + 1
  /\ s' = StopNow(s)
  /\ Note([k |-> "stopnow"])
  /\ UNCHANGED <<log, cur, nev, fin>>

DoRun == \E id \in s.live :
  /\ CanRun(s, id) /\ s.ev[id].at <= Horizon
  /\ s' = Run(s, id)
  /\ log' = Append(log, [id |-> id, t |-> s.ev[id].at])
  /\ cur' = id
  /\ UNCHANGED <<nev, nops, prog, fin>>

DoFinish ==
  /\ (CanFinish(s) \/ (NextE(s) > Horizon /\ ~s.stopNow))
  /\ s' = Finish(s)
  /\ fin' = TRUE
  /\ UNCHANGED <<log, cur, nev, nops, prog>>
  /\ Gen => PrintT("PROG " \o ToJson(prog))

Next == s.on /\ (DoSched \/ DoVoid \/ DoStop \/ DoRun \/ DoFinish)
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
Pos(id) == {j \in 1..Len(log) : log[j].id = id}
TypeOk == StateOk(s)
(* C01: each event at most once per due tick, ticks never decrease *)
OncePerTick == \A j, k \in 1..Len(log) : j < k => /\ log[j].t <= log[k].t
                                                  /\ (log[j].id = log[k].id => log[j].t < log[k].t)
(* C01/C03: a one-time event once; a repeating one at consecutive multiples *)
Cadence == \A id \in DOMAIN s.ev : \A j, k \in Pos(id) :
   /\ s.ev[id].iv = 0 => j = k
   /\ (j < k /\ ~\E m \in Pos(id) : j < m /\ m < k) => log[k].t = log[j].t + s.ev[id].iv
(* C01: nothing due is ever left behind *)
NothingLost == ~s.on => \A id \in Evts(s) : s.ev[id].at > (IF s.stopNow THEN s.tick ELSE Horizon)
(* C02 on the log *)
OrderInTick == \A j, k \in 1..Len(log) : (j < k /\ log[j].t = log[k].t) =>
   LET J == s.ev[log[j].id]  K == s.ev[log[k].id] IN
   \* k may precede j only if it was scheduled after j ran (scheduling counter beyond all seen)
   (K.pt = FIRST => K.idx > J.idx) /\ (J.pt = LAST => K.idx > J.idx)
   /\ (J.pt = BYPR /\ K.pt = BYPR /\ K.pr < J.pr => K.idx > J.idx)
(* C03 *)
VoidedNeverRuns == [][\A id \in s.voided : Len(log') > Len(log) => log'[Len(log')].id # id]_vars
(* C04 (one rank): after stop, only events of the stop tick *)
StopHolds == [][(s.stopNow /\ Len(log') > Len(log)) => log'[Len(log')].t = s.tick]_vars
=============================================================================
