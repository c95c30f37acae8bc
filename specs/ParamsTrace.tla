------------------------------ MODULE ParamsTrace ------------------------------
(* Recorded calls of init_params and random.init.  Dictionaries are lists of
   <<key, value>>, values in a canonical text; a generator state is a digest.
   sd: seed -> digest of the generator seeded with it, as first seen          *)
EXTENDS Params, TraceBase

Dict(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = k /\ \A j \in (i + 1)..Len(q) : q[j][1] # k][2]]
PInit(cfg) == [params |-> <<>>, seed |-> "", gen |-> "", files |-> <<>>, sd |-> <<>>]
S(b, s) == [bad |-> b, s |-> s]

(* the digest for a seed is the one seen before for this seed and for no other *)
Known(s, k, g) == IF k \in DOMAIN s.sd THEN s.sd[k] = g ELSE \A j \in DOMAIN s.sd : s.sd[j] # g
Learn(s, k, g) == [s EXCEPT !.sd = (k :> g) @@ @, !.seed = k, !.gen = g]

Do(s, e) ==
  CASE e.k = "start" -> S({}, [s EXCEPT !.seed = e.seed, !.gen = e.gen])
    [] e.k = "init" -> S(Ok(e.now = e.seed, "C26:the seed is not the one given")
                         \cup Ok(Known(s, e.seed, e.gen), "C26:the generator is not a function of the seed"), Learn(s, e.seed, e.gen))
    [] e.k = "draw" -> S({}, [s EXCEPT !.gen = e.gen])
    [] e.k = "params" ->
         LET p == Effective(Dict(e.file), Dict(e.over))
             got == Dict(e.ret)
             names == {x[1] : x \in {e.ls[i] : i \in 1..Len(e.ls)}}
             ls == [n \in names |-> Dict((CHOOSE x \in {e.ls[i] : i \in 1..Len(e.ls)} : x[1] = n)[2])]
             new == names \ DOMAIN s.files
             seeded == Seed \in DOMAIN p IN
         S(Ok(DOMAIN got = DOMAIN p /\ Len(e.ret) = Cardinality(DOMAIN got), "C26:the parameters are not those of the file and the override")
           \cup Ok(\A k \in DOMAIN p \cap DOMAIN got : got[k] = p[k], "C26:a parameter does not have the value given")
           \cup Ok(Dict(e.glob) = got, "C26:parameters.params are not those returned")
           \cup Ok(seeded => e.now = p[Seed], "C26:the seed is not the one among the parameters")
           \cup Ok(seeded => Known(s, p[Seed], e.gen), "C26:the generator is not a function of the seed among the parameters")
           \cup Ok(~seeded => e.now = s.seed /\ e.gen = s.gen, "C26:parameters without a seed changed the generator")
           \cup Ok(\A f \in DOMAIN s.files : f \in names /\ ls[f] = s.files[f], "C26:a file was overwritten")
           \cup Ok(Cardinality(new) = (IF e.dump = 1 THEN 1 ELSE 0), "C26:the parameters were not dumped to one new file")
           \cup Ok(\A f \in new : ls[f] = p, "C26:the dumped parameters are not those in effect"),
           LET t == [s EXCEPT !.params = p, !.files = ls @@ @] IN IF seeded THEN Learn(t, p[Seed], e.gen) ELSE t)

PStep(s, e) == Do(s, e)
=============================================================================
