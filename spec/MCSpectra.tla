------------------------------ MODULE MCSpectra ------------------------------
(* Design check: what is reported must not depend on the basis which the eigensolver happens to choose
   for degenerate levels, and what is reported for the sites adds up to what is reported for the system. *)
EXTENDS Spectra, TLC
CONSTANTS Norbs, Faulty

VARIABLES sites, pairs, other      \* the same levels in another basis
vars == <<sites, pairs, other>>

Systems == UNION {{[s \in 1..n |-> [x |-> s, y |-> 0, sub |-> 0, norb |-> f[s]]] : f \in [1..n -> Norbs]} : n \in 1..3}
Unit(n, r) == [i \in 1..n |-> IF i = r THEN 2 ELSE 0]
Half(n, r, q) == [i \in 1..n |-> IF i \in {r, q} THEN 1 ELSE 0]
Pair(v, weight) == [value |-> v, w |-> <<0, 0>>, weight |-> weight]
Standard(n, f) == [r \in 1..n |-> Pair(f[r], Unit(n, r))]
Mixed(ps, n, r, q) == [i \in 1..n |-> IF i \in {r, q} THEN [ps[i] EXCEPT !.weight = Half(n, r, q)] ELSE ps[i]]

Init == \E s \in Systems : \E f \in [1..Size(s) -> 0..1] :
          /\ sites = s /\ pairs = Standard(Size(s), f) /\ other = Standard(Size(s), f)
Next == \E r, q \in 1..Len(pairs) : r < q /\ pairs[r].value = pairs[q].value
          /\ other' = Mixed(pairs, Len(pairs), r, q) /\ UNCHANGED <<sites, pairs>>
Spec == Init /\ [][Next]_vars

k0 == <<0, 0>>
\* the map of probabilities at a site: the sum over its rows, the same for all levels of a group
Map(ps, s) == LET p == Sorted(ps, k0)  vs == Values(ps, k0) IN
  [i \in DOMAIN p |->
     LET g == IF "single" \in Faulty THEN {i} ELSE Run(vs, i, 1)
         rows == IF "one_row" \in Faulty THEN {s} ELSE Rows(sites, s)
     IN (60 * TotalOf(Len(p[1].weight), LAMBDA r : IF r \in rows THEN WeightIn(p, g, r) ELSE 0)) \div Cardinality(g)]
Local(ps, e) == Reduced(sites, [r \in 1..Size(sites) |-> LocalDos(ps, k0, e, r)])
Basis == \A s \in DOMAIN sites : Map(pairs, s) = Map(other, s)
SumRule == \A e \in 0..1 : Total(Local(pairs, e)) = 2 * Dos(pairs, k0, e) /\ Local(pairs, e) = Local(other, e)
\* all probability is somewhere
Somewhere == \A i \in DOMAIN pairs : TotalOf(Len(sites), LAMBDA s : Map(pairs, s)[i]) = 120
RowsCover == \A r \in 1..Size(sites) : Cardinality({s \in DOMAIN sites : r \in Rows(sites, s)}) = 1
Inv == Basis /\ SumRule /\ Somewhere /\ RowsCover
=============================================================================
