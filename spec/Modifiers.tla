------------------------------ MODULE Modifiers ------------------------------
(* What the core gets back from a modifier function of the user: the values which the function returned for each
   site (or hopping), in the core's own order, whatever kind of array the function returned.

   The core keeps the energies of n sites with a x b orbitals in a buffer where the site changes fastest
   (a, b, n); the function sees and returns n matrices (n, a, b).  The core reads the returned buffer as raw memory. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

CONSTANT Faulty

(* kinds of elements; precision is flexible *)
KindRank(k) == CASE k = "b" -> 0 [] k = "i" -> 1 [] k = "f" -> 2 [] k = "c" -> 3
CanCast(from, to) == KindRank(from) <= KindRank(to)

(* a result r: [array: is it an array, kind, bits, shape, vals: one value per element in (site, row, column) order] *)
Outcome(prime, results, nreturn, cancomplex) ==
  CASE \E r \in Range(results) : ~r.array -> [ok |-> FALSE]
    [] Len(results) # nreturn -> [ok |-> FALSE]
    [] \E r \in Range(results) : Len(r.vals) # prime.n * prime.a * prime.b -> [ok |-> FALSE]
    [] \E r \in Range(results) : ~CanCast(r.kind, prime.kind) /\ ~(r.kind = "c" /\ cancomplex) -> [ok |-> FALSE]
    [] OTHER -> [ok |-> TRUE,
                 out |-> [j \in DOMAIN results |->
                    [kind |-> IF CanCast(results[j].kind, prime.kind) THEN prime.kind ELSE results[j].kind,
                     bits |-> IF CanCast(results[j].kind, prime.kind) THEN prime.bits ELSE results[j].bits,
                     raw |-> [k \in 1..Len(results[j].vals) |->
                                LET q == k - 1
                                    s == q % prime.n
                                    ij == q \div prime.n
                                IN results[j].vals[s * (prime.a * prime.b) + ij + 1]]]]]


(* the energies of n sites, (site, row, column), plus the same for each orbital *)
PlusOnDiagonal(prime, more) ==
  [k \in DOMAIN prime.vals |-> LET q == (k - 1) % (prime.a * prime.b)
                               IN IF q \div prime.b = q % prime.b THEN <<prime.vals[k][1] + more, prime.vals[k][2]>> ELSE prime.vals[k]]

-----------------------------------------------------------------------------
(* The algorithm: arrays are strided views on memory *)
(* array: [mem: Seq(value), off, shape: <<d1, d2, d3>>, strides: <<s1, s2, s3>>, owned] *)
Elem(A, i, j, k) == A.mem[A.off + i * A.strides[1] + j * A.strides[2] + k * A.strides[3] + 1]
Size(A) == A.shape[1] * A.shape[2] * A.shape[3]
CContiguous(A) == /\ (A.shape[3] > 1 => A.strides[3] = 1)
                  /\ (A.shape[2] > 1 => A.strides[2] = A.shape[3])
                  /\ (A.shape[1] > 1 => A.strides[1] = A.shape[2] * A.shape[3])
Copy(A) == [mem |-> [x \in 1..Size(A) |-> LET q == x - 1
                                              k == q % A.shape[3]
                                              j == (q \div A.shape[3]) % A.shape[2]
                                              i == q \div (A.shape[2] * A.shape[3])
                                          IN Elem(A, i, j, k)],
            off |-> 0, shape |-> A.shape, strides |-> <<A.shape[2] * A.shape[3], A.shape[3], 1>>, owned |-> TRUE]
MoveFirstToLast(A) == [A EXCEPT !.shape = <<A.shape[2], A.shape[3], A.shape[1]>>,
                                !.strides = <<A.strides[2], A.strides[3], A.strides[1]>>, !.owned = FALSE]
Sanitized(A) ==
  IF "owned_only" \in Faulty
  THEN IF A.owned /\ CContiguous(A) THEN Copy(MoveFirstToLast(A)) ELSE A
  ELSE IF "always_copy_as_is" \in Faulty THEN Copy(A)
  ELSE LET M == MoveFirstToLast(A) IN IF CContiguous(M) THEN M ELSE Copy(M)
InBounds(A) == A.off + Size(A) <= Len(A.mem)
RawRead(A) == [x \in 1..Size(A) |-> A.mem[A.off + x]]
=============================================================================
