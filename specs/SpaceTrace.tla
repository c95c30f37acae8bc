----------------------------- MODULE SpaceTrace -----------------------------
(* Events: add a | add2 a loc (added again; loc = 0 none / 1 kept)
   move a p res q | rm a | obs (full projection of the space) | within lo hi got
   border: one coordinate of arbitrary value, classified by the harness:
     per, inc/outc (0 below, 1 at min, 2 inside, 3 at max or beyond), same (output = input),
     near (the output is the extreme coordinate inside), cong (difference is a whole number of extents) *)
EXTENDS Space, TraceBase

PInit(cfg) == [c |-> cfg, s |-> S0]

Nm(c) == c.name
SeqToSet(q) == {q[j] : j \in 1..Len(q)}

MoveCl(c, s, e) ==
  LET q == Border(c, e.p) IN
  IF e.a \notin s.ag THEN Ok(e.res = "err", "C14:moving an agent that is not in the space is not an error")
  ELSE IF Blocked(c, s, e.a, e.p) THEN Ok(e.res = "none", "C14:move to an occupied cell succeeded")
  ELSE Ok(e.res = "pt", "C14:move refused")
       \cup Ok(e.res = "pt" => Inside(c, e.q), "C15:location outside the bounds")
       \cup Ok(e.res = "pt" => e.q = q, IF Inside(c, e.p) THEN "C14,C15:move returned another point" ELSE "C15:border rule")

ObsCl(c, s, e) ==
  Ok({a \in SeqToSet(e.ids) : e.in[a] = 1} = s.ag, "C14:contains")
  \cup Ok(\A a \in SeqToSet(e.ids) : e.loc[a] = IF a \in Located(s) THEN s.loc[a] ELSE <<>>, "C14:location")
  \cup Ok(\A j \in 1..Len(e.at) :
            LET A == AgentsAt(s, e.at[j].q) IN
            /\ SeqToSet(e.at[j].g) = SeqToSet(A) /\ Len(e.at[j].g) = Len(A), "C14:agents found at a point")
  \cup Ok(\A j \in 1..Len(e.at) : e.at[j].g = AgentsAt(s, e.at[j].q), "C14:order of arrival at a point")
  \cup Ok(\A j \in 1..Len(e.at) : e.at[j].f = IF At(s, e.at[j].q) = {} THEN 0 ELSE AgentsAt(s, e.at[j].q)[1], "C14:get_agent")
  \cup Ok(\A j \in 1..Len(e.at) : e.at[j].n >= 0 =>
            /\ e.at[j].n = Cardinality(At(s, e.at[j].q))
            /\ \A t \in 1..Len(e.at[j].nt) : e.at[j].nt[t] = Cardinality({a \in At(s, e.at[j].q) : c.types[a] = t - 1}), "C14:get_num_agents")
  \cup Ok(StateOk(c, s), "*:state invariant")

WithinCl(c, s, e) ==
  LET W == Within(c, s, e.lo, e.hi) IN
  Ok(W \subseteq SeqToSet(e.got), "C16:an agent inside the box is missing")
  \cup Ok(SeqToSet(e.got) \subseteq W, "C16:an agent outside the box is returned")
  \cup Ok(Len(e.got) = Cardinality(SeqToSet(e.got)), "C16:an agent is returned twice")

BorderCl(e) ==
  Ok(e.outc \in {1, 2}, "C15:result outside the bounds")
  \cup (IF e.per = "sticky"
        THEN Ok(e.inc \in {1, 2} => e.same \/ e.near, "C15:sticky border changed a coordinate inside")
             \cup Ok(e.inc = 0 => e.outc = 1, "C15:sticky border, below the minimum")
             \cup Ok(e.inc = 3 => e.near, "C15:sticky border, beyond the maximum")
        ELSE Ok(e.inc \in {1, 2} => e.same, "C15:periodic border changed a coordinate inside")
             \cup Ok(e.cong, "C15:periodic border moved by other than whole extents"))

PStep(st, e) ==
  LET c == st.c  s == st.s  to(x) == [st EXCEPT !.s = x] IN
  CASE e.k = "add"  -> [bad |-> {}, s |-> to(Add(s, e.a))]
    [] e.k = "add2" -> [bad |-> {}, s |-> IF e.loc = 0 THEN to(Add(Remove(s, e.a), e.a)) ELSE st]
    [] e.k = "rm"   -> [bad |-> {}, s |-> to(Remove(s, e.a))]
    [] e.k = "move" -> [bad |-> MoveCl(c, s, e), s |-> IF e.a \in s.ag THEN to(Move(c, s, e.a, e.p)) ELSE st]
    [] e.k = "obs"  -> [bad |-> ObsCl(c, s, e), s |-> st]
    [] e.k = "within" -> [bad |-> WithinCl(c, s, e), s |-> st]
    [] e.k = "border" -> [bad |-> BorderCl(e), s |-> st]
    [] e.k = "rnd"  -> [bad |-> Ok(Inside(c, e.q), "C15,C14:random local point outside the local bounds"), s |-> st]
=============================================================================
