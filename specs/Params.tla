-------------------------------- MODULE Params --------------------------------
(* Model parameters, the seed, and the reproducibility of runs.

   params  the parameters in effect: key -> value
   seed    the seed in effect, or Unseeded
   gen     the state of the random generator:  <<seed, number of draws>>
   files   name -> content of what was dumped: nothing is ever overwritten

   A run is a sequence of calls with their results.  Results that involve random
   choices are those of the stream of the seed: F[seed][k].

   Anchors: parameters.py init_params; random.py init; util.py find_free_filename. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Seed == "random.seed"
Effective(file, over) == over @@ file

(* files: name -> content *)
InitParams(s, file, over) ==
  LET p == Effective(file, over) IN
  IF Seed \in DOMAIN p THEN [s EXCEPT !.params = p, !.seed = p[Seed], !.gen = <<p[Seed], 0>>]
  ELSE [s EXCEPT !.params = p]
Reseed(s, k) == [s EXCEPT !.seed = k, !.gen = <<k, 0>>]
Draw(s, n) == [s EXCEPT !.gen[2] = @ + n]
Dump(s, name) == [s EXCEPT !.files = (name :> s.params) @@ @]
=============================================================================
