----------------------------- MODULE Solver -----------------------------
(* The eigensolver interface: a model, a strategy which solves Hamiltonians of one scalar type and keeps
   its last results, and a flag that says whether they belong to the present model.

   What the user sees is the abstract part (the results of the present model, computed at most once
   until they are cleared or the model changes); the concrete part is how this is achieved. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------------------------------------ the abstract solver *)
\* [model, fresh]: fresh = the results of the model are known
Attempts(s, query) == IF query /\ ~s.fresh THEN 1 ELSE 0
AfterQuery(s, failed) == [s EXCEPT !.fresh = IF s.fresh THEN TRUE ELSE ~failed]
AfterClear(s) == [s EXCEPT !.fresh = FALSE]
AfterModel(s, m) == [model |-> m, fresh |-> FALSE]

(* ------------------------------------------------------------ the levels seen through Gaussians *)
\* 64 x the sum of 2^-k over the levels at the energy (other levels are too far away to be seen)
Pow2(k) == 2 ^ k
Weight(k) == Pow2(6 - (IF k < 0 THEN -k ELSE k))
=============================================================================
