------------------------------ MODULE MCResults ------------------------------
(* Selections of selections: whatever is selected, data and hoppings stay with the sites which they belong to.
   Each site carries its own label in `data`; the hoppings of the first map are known by labels. *)
EXTENDS Results, TLC
CONSTANTS N, Depth, Faulty
VARIABLES map, edges, depth

Whole == [sites |-> [i \in 1..N |-> [x |-> i % 2, y |-> i \div 2, z |-> 0, sub |-> i % 2, data |-> i]],
          hops |-> {}, bounds |-> <<>>, kind |-> "structure"]
\* all sets of up to 2 hoppings, with ids 0 and 1
HopSets == {h \in SUBSET ((0..(N - 1)) \X (0..(N - 1)) \X {0, 1}) : Cardinality(h) <= 2 /\ \A a, b \in h : a[1] = b[1] /\ a[2] = b[2] => a = b}
Init == /\ depth = 0
        /\ edges \in HopSets
        /\ map = [Whole EXCEPT !.hops = edges, !.bounds = <<[shift |-> <<1, 0, 0>>, hops |-> edges]>>]
Lists(n) == UNION {[1..k -> 0..(n - 1)] : k \in 0..2}
Masks(n) == [1..n -> BOOLEAN]
Broken(m, ix) == [Select(m, ix) EXCEPT !.hops =
    IF "rows_only" \in Faulty THEN UNION {{<<a - 1, h[2], h[3]>> : a \in {k \in DOMAIN ix : ix[k] = h[1]}} : h \in m.hops}
    ELSE IF "zero_id" \in Faulty THEN {h \in @ : h[3] # 0} ELSE @,
  !.bounds = IF "bounds" \in Faulty THEN m.bounds ELSE @]
Do(ix) == map' = Broken(map, ix) /\ UNCHANGED edges
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ LET n == Len(map.sites)
           IN \/ \E mask \in Masks(n) : Do(MaskIndex(mask))
              \/ \E list \in Lists(n) : Do(ListIndex(n, list))
              \/ \E a, b \in 0..n, s \in 1..2 : Do(SliceIndex(n, a, b, s))
              \/ \E a, b \in 0..2 : Do(Within(map, <<<<"x", a, b>>>>))
Spec == Init /\ [][Next]_<<map, edges, depth>>

Label(i) == map.sites[i + 1].data - 1
Together ==
  /\ \A i \in DOMAIN map.sites : LET s == map.sites[i] IN s = Whole.sites[s.data]
  /\ \A hs \in {map.hops, map.bounds[1].hops} :
       /\ \A h \in hs : h[1] < Len(map.sites) /\ h[2] < Len(map.sites)
       /\ \A a, b \in 0..(Len(map.sites) - 1), id \in {0, 1} : <<a, b, id>> \in hs <=> <<Label(a), Label(b), id>> \in edges
=============================================================================
