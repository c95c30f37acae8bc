----------------------------- MODULE CkptTrace -----------------------------
(* ae: the end events a checkpoint holds (those that ran are run again after a
   restored run).  Histories of the schedules of several ranks (r, 0-based) with checkpoints.
   The events of SchedTrace, each with r, and
     tag id tag          the tag in the metadata of an event
     save j t            the current tick is t and the checkpoint of slot j is taken
     restore j tags ign stops t q   a new runner is restored from slot j, with
                         the tags in this order, ignoring the ids ign; t is its
                         current tick, q the number of events it holds; cmp: the
                         operations that follow are those that followed the save
     run id t v          v: a random number drawn by the event
   A run restored without leaving anything out has to repeat what the run that
   was saved did after saving: same events, ticks and random numbers, same order. *)
EXTENDS SchedTrace, Ckpt

KInit(cfg) == [r \in 1..cfg.n |-> [s |-> S0, tag |-> <<>>, sl |-> <<>>, open |-> {},
                                   exp |-> <<>>, cmp |-> FALSE, whole |-> FALSE, rest |-> FALSE, one |-> FALSE, ae |-> {}]]

ToSet(q) == {q[j] : j \in 1..Len(q)}
Put(f, x, v) == (x :> v) @@ f

Log(K, x) == [K EXCEPT !.sl = [j \in DOMAIN @ |-> IF j \in K.open THEN [@[j] EXCEPT !.tail = Append(@, x)] ELSE @[j]]]
Whole(K) == [K EXCEPT !.sl = [j \in DOMAIN @ |-> IF j \in K.open THEN [@[j] EXCEPT !.whole = TRUE] ELSE @[j]]]

Same(K, x) == IF ~K.cmp THEN {}
              ELSE IF K.exp = <<>> THEN Ok(~K.whole, "C23:the restored run goes on after the end of the original")
              ELSE Ok(Head(K.exp) = x, "C23:the restored run differs from the original")
Adv(K) == IF ~K.cmp THEN K
          ELSE IF K.exp = <<>> THEN [K EXCEPT !.cmp = FALSE] ELSE [K EXCEPT !.exp = Tail(@)]

Kept(K, e, v) == {i \in v.live \cup v.ends : /\ i \notin ToSet(e.ign)
                                             /\ (IF i \in DOMAIN K.tag THEN K.tag[i] ELSE 0) \in ToSet(e.tags)}

RestoreK(K, e) ==
  LET z == K.sl[e.j]
      v == z.v
      keep == Kept(K, e, v)
      stops == e.stops /\ 0 \in ToSet(e.tags)        \* a stop has the default tag
      full == /\ e.cmp /\ stops /\ ~v.over
              /\ v.live \cup v.ends \subseteq keep \cup {i \in v.live : v.ev[i].kind = "stop"}
  IN [K EXCEPT !.s = Restored(v, keep, stops), !.open = {}, !.rest = TRUE, !.ae = v.ends \cap keep,
               !.one = Len(e.tags) = 1,
               !.exp = IF ~full THEN <<>> ELSE IF Len(e.tags) = 1 THEN z.tail ELSE SelectSeq(z.tail, LAMBDA x : x[2] # -1), !.cmp = full, !.whole = z.whole]

KStep(K, e) ==
  LET b == SStep(K.s, e)
      bad == IF K.rest THEN {"C23:restored schedule: " \o c : c \in b.bad} ELSE b.bad
  IN
  CASE e.k = "tag" -> [bad |-> {}, s |-> [K EXCEPT !.tag = Put(@, e.id, e.tag)]]
    [] e.k = "save" ->
        LET N == [K.s EXCEPT !.tick = e.t] IN      \* a tick with stops or voided events only may have passed
        [bad |-> Ok(e.t \in {K.s.tick} \cup K.s.vat \cup {K.s.ev[i].at : i \in Stops(K.s)} /\ NextE(K.s) >= e.t, "C01,C23:current tick"),
         s |-> [K EXCEPT !.s = N, !.sl = Put(@, e.j, [v |-> [Saved(N) EXCEPT !.ends = K.ae], tail |-> <<>>, whole |-> FALSE]),
                         !.open = @ \cup {e.j}]]
    [] e.k = "restore" ->
        LET N == RestoreK(K, e) IN
        [bad |-> Ok(e.t = N.s.tick, "C23:current tick of the restored schedule")
                 \cup Ok(e.q = Cardinality(N.s.live), "C23:number of restored events"), s |-> N]
    [] e.k \in {"run", "runend"} ->
        LET x == <<e.id, IF e.k = "run" THEN e.t ELSE -1, e.v>> IN
        IF e.k = "runend" /\ ~K.one       \* several tags: the order of end events is open
        THEN [bad |-> bad, s |-> Log([K EXCEPT !.s = b.s], x)]
        ELSE [bad |-> bad \cup Same(K, x), s |-> Adv(Log([K EXCEPT !.s = b.s], x))]
    [] e.k = "fin" -> [bad |-> bad \cup Ok(~K.cmp \/ ~K.whole \/ K.exp = <<>>, "C23:the restored run ends before the original"),
                       s |-> Whole([K EXCEPT !.s = b.s])]
    [] e.k = "done" -> [bad |-> bad, s |-> [K EXCEPT !.s = [b.s EXCEPT !.tick = IF StopT(K.s) < Inf THEN StopT(K.s) ELSE @]]]
    [] e.k = "end" -> [bad |-> bad, s |-> [K EXCEPT !.s = b.s, !.ae = @ \cup {e.id}]]
    [] e.k = "void" -> [bad |-> bad, s |-> [K EXCEPT !.s = b.s, !.ae = @ \ {e.id}]]
    [] OTHER -> [bad |-> bad, s |-> [K EXCEPT !.s = b.s]]

GStep(g, e) == LET x == KStep(g[e.r + 1], e) IN [bad |-> x.bad, s |-> [g EXCEPT ![e.r + 1] = x.s]]
=============================================================================
