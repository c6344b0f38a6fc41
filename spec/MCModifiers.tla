----------------------------- MODULE MCModifiers -----------------------------
(* Every strided view (any order of the axes in memory, gaps, reversed axes, repeated elements) of up to
   NMAX x AMAX x BMAX elements is read correctly by the core. *)
EXTENDS Modifiers
CONSTANTS NMAX, AMAX, BMAX
VARIABLES arr

Perms == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
(* p[d]: the place of the axis d from the fastest; gap: distance of the fastest elements; rev: reversed axes *)
Layout(shape, p, gap, rev, zero) ==
  LET abs == [d \in 1..3 |-> IF zero = d THEN 0
                             ELSE gap * FoldLeft(LAMBDA acc, e : IF p[e] < p[d] /\ zero # e THEN acc * shape[e] ELSE acc, 1, <<1, 2, 3>>)]
      strides == [d \in 1..3 |-> IF d \in rev THEN -abs[d] ELSE abs[d]]
      off == FoldLeft(LAMBDA acc, d : IF d \in rev THEN acc + abs[d] * (shape[d] - 1) ELSE acc, 0, <<1, 2, 3>>)
      total == FoldLeft(LAMBDA acc, d : acc + abs[d] * (shape[d] - 1), 1, <<1, 2, 3>>)
  IN [mem |-> [x \in 1..total |-> x], off |-> off, shape |-> shape, strides |-> strides, owned |-> (gap = 1 /\ rev = {} /\ zero = 0)]

Arrays == {Layout(<<n, a, b>>, p, g, r, z) : n \in 1..NMAX, a \in 1..AMAX, b \in 1..BMAX, p \in Perms, g \in {1, 2},
                                             r \in SUBSET {1, 2, 3}, z \in 0..3}
           \union {[Layout(<<n, a, b>>, p, 1, {}, 0) EXCEPT !.owned = FALSE] : n \in 1..NMAX, a \in 1..AMAX, b \in 1..BMAX, p \in Perms}

Init == arr \in Arrays
Next == UNCHANGED arr

Vals(A) == [x \in 1..Size(A) |-> LET q == x - 1 IN
             Elem(A, q \div (A.shape[2] * A.shape[3]), (q \div A.shape[3]) % A.shape[2], q % A.shape[3])]
Expected(A) == Outcome([kind |-> "f", bits |-> 32, n |-> A.shape[1], a |-> A.shape[2], b |-> A.shape[3]],
                       <<[array |-> TRUE, kind |-> "f", bits |-> 32, vals |-> Vals(A)]>>, 1, FALSE).out[1].raw
CoreReadsTheValues == LET S == Sanitized(arr) IN InBounds(S) /\ RawRead(S) = Expected(arr)
(* the buffer which the core gave out is not copied when the function returns it *)
NoCopyInPlace == (arr.strides = <<1, arr.shape[1] * arr.shape[3], arr.shape[1]>> /\ arr.off = 0) => Sanitized(arr).mem = arr.mem
=============================================================================
