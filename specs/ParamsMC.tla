------------------------------- MODULE ParamsMC -------------------------------
(* All short histories of two processes which run the same program: both end with the
   same results, whatever the other does in between and whatever came before.        *)
EXTENDS Params, Json
CONSTANTS Keys, Vals, Seeds, Len0, Gen
VARIABLES prog, proc, done
vars == <<prog, proc, done>>

Part(S, T) == UNION {[X -> T] : X \in SUBSET S}
Dicts == {k @@ s : k \in Part(Keys, Vals), s \in Part({Seed}, Seeds)}
Calls == {[k |-> "params", file |-> f, over |-> o, dump |-> d] : f \in Dicts, o \in Dicts, d \in BOOLEAN}
         \cup {[k |-> "init", seed |-> x] : x \in Seeds} \cup {[k |-> "draw", n |-> 1]}

(* 0: unseeded; the generator before the first seeding differs from process to process *)
Start(i) == [params |-> <<>>, seed |-> 0, gen |-> <<100 + i, 0>>, files |-> <<>>, log |-> <<>>, at |-> 0]
Init == prog = <<>> /\ done = FALSE /\ proc = [i \in 1..2 |-> Start(i)]

Write == /\ ~done /\ Len(prog) < Len0
         /\ \E c \in Calls : prog' = Append(prog, c)
         /\ UNCHANGED <<proc, done>>
Finish == /\ ~done /\ prog # <<>> /\ done' = TRUE /\ UNCHANGED <<prog, proc>>
          /\ Gen => PrintT("PROG " \o ToJson(prog))

Run(s, c) ==
  CASE c.k = "params" -> LET t == InitParams(s, c.file, c.over)
                             u == IF c.dump THEN Dump(t, Cardinality(DOMAIN t.files)) ELSE t IN
                         [u EXCEPT !.log = Append(@, u.params)]
    [] c.k = "init" -> Reseed(s, c.seed)
    [] OTHER -> [Draw(s, c.n) EXCEPT !.log = Append(@, s.gen)]
Go(i) == /\ done /\ ~Gen /\ proc[i].at < Len(prog)
         /\ proc' = [proc EXCEPT ![i] = [Run(@, prog[@.at + 1]) EXCEPT !.at = @ + 1]]
         /\ UNCHANGED <<prog, done>>
Next == Write \/ Finish \/ \E i \in 1..2 : Go(i)
Spec == Init /\ [][Next]_vars

Seeding(c) == c.k = "init" \/ (c.k = "params" /\ Seed \in DOMAIN Effective(c.file, c.over))
(* after the first seeding the generators, and all results since, are equal at equal points *)
Same == proc[1].at = proc[2].at /\ (\E k \in 1..proc[1].at : Seeding(prog[k])) => proc[1].gen = proc[2].gen /\ proc[1].seed = proc[2].seed
Override == \A i \in 1..2 : proc[i].at > 0 => LET c == prog[proc[i].at] IN
   c.k = "params" => \A x \in DOMAIN proc[i].params :
       IF x \in DOMAIN c.over THEN proc[i].params[x] = c.over[x] ELSE x \in DOMAIN c.file /\ proc[i].params[x] = c.file[x]
SeedOfParams == \A i \in 1..2 : proc[i].at > 0 => LET c == prog[proc[i].at] IN
   c.k = "params" /\ Seed \in DOMAIN proc[i].params => proc[i].seed = proc[i].params[Seed] /\ proc[i].gen = <<proc[i].seed, 0>>
Kept == [][\A i \in 1..2 : \A f \in DOMAIN proc[i].files : f \in DOMAIN proc'[i].files /\ proc'[i].files[f] = proc[i].files[f]]_vars
=============================================================================
