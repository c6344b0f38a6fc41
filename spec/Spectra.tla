------------------------------- MODULE Spectra -------------------------------
(* What is derived from the solutions of a Hamiltonian, and where it belongs: a system is a sequence of
   sites [x, y, sub, norb], each of which has norb consecutive rows of the Hamiltonian.
     pair   [value, w, weight]   value at the wave vector 0, w: its change with the wave vector,
                                 weight[r] = 2 |psi_r|^2
   Wave vectors and values are given in 1/60. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
TotalOf(n, f(_)) == Total([i \in 1..n |-> f(i)])
Abs(x) == IF x < 0 THEN -x ELSE x

(* ---- sites and rows ---- *)
FirstRow(sites, s) == 1 + TotalOf(s - 1, LAMBDA t : sites[t].norb)
Rows(sites, s) == FirstRow(sites, s)..(FirstRow(sites, s) + sites[s].norb - 1)
Size(sites) == TotalOf(Len(sites), LAMBDA t : sites[t].norb)
SiteOf(sites, r) == CHOOSE s \in DOMAIN sites : r \in Rows(sites, s)
Reduced(sites, data) == [s \in DOMAIN sites |-> TotalOf(sites[s].norb, LAMBDA k : data[FirstRow(sites, s) + k - 1])]
Distance(s, p) == (s.x - p[1]) * (s.x - p[1]) + (IF Len(p) > 1 THEN (s.y - p[2]) * (s.y - p[2]) ELSE s.y * s.y)
Closest(sites, p, sub) ==
  LET fam == {s \in DOMAIN sites : sub < 0 \/ sites[s].sub = sub}
  IN {s \in fam : \A t \in fam : Distance(sites[s], p) <= Distance(sites[t], p)}

(* ---- levels ---- *)
ValueAt(p, k) == 60 * p.value + p.w[1] * k[1] + p.w[2] * k[2]
Ascending(vs) == SortSeq(vs, LAMBDA a, b : a < b)
Values(pairs, k) == Ascending([i \in DOMAIN pairs |-> ValueAt(pairs[i], k)])
\* the pairs in the order of their values
Sorted(pairs, k) == LET order == SortSeq([i \in DOMAIN pairs |-> i], LAMBDA a, b : LET x == ValueAt(pairs[a], k)  y == ValueAt(pairs[b], k) IN x < y \/ (x = y /\ a < b))
                    IN [i \in DOMAIN pairs |-> pairs[order[i]]]
\* runs of sorted values with differences below the tolerance: sets of indices
RECURSIVE RunStart(_, _, _)
RunStart(vs, i, tol) == IF i > 1 /\ vs[i] - vs[i - 1] < tol THEN RunStart(vs, i - 1, tol) ELSE i
Run(vs, i, tol) == {j \in DOMAIN vs : RunStart(vs, j, tol) = RunStart(vs, i, tol)}
Runs(vs, tol) == {Run(vs, i, tol) : i \in DOMAIN vs}
\* solutions of a Hamiltonian which couples rows in pairs: <<i, j, a, b, w>> (i = j: a row by itself); rows start at 0
BlockPairs(n, b) ==
  LET at(v) == [value |-> v, w |-> b[5], weight |-> [r \in 1..n |-> IF r = b[1] + 1 \/ r = b[2] + 1 THEN (IF b[1] = b[2] THEN 2 ELSE 1) ELSE 0]]
  IN IF b[1] = b[2] THEN <<at(b[3])>> ELSE <<at(b[3] - b[4]), at(b[3] + b[4])>>
\* values whose distance is below the limit (in halves)
Near(a, b, halves) == 2 * Abs(a - b) < 60 * halves

(* ---- Gaussians: 2^16, 2^12, 1 at the distances 0, 1, 2 ---- *)
Gaussian(d) == CASE d = 0 -> 65536 [] Abs(d) = 60 -> 4096 [] Abs(d) = 120 -> 1 [] OTHER -> 0
Dos(pairs, k, e) == TotalOf(Len(pairs), LAMBDA i : Gaussian(ValueAt(pairs[i], k) - 60 * e))
LocalDos(pairs, k, e, r) == TotalOf(Len(pairs), LAMBDA i : pairs[i].weight[r] * Gaussian(ValueAt(pairs[i], k) - 60 * e))
WeightIn(pairs, I, r) == TotalOf(Len(pairs), LAMBDA i : IF i \in I THEN pairs[i].weight[r] ELSE 0)

(* ---- leads: h0 + h1 e^ik + h1^+ e^-ik at multiples k of pi/2, as blocks <<i, j, a0, b0, a1, b1>>:
   h0 has a0 (real) at (i, i) and (j, j), b0 at (i, j) and (j, i); h1 has a1 (complex) at (i, i) and (j, j), b1 (real) only at (i, j) ---- *)
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Root(n) == CHOOSE r \in 0..n : r * r = n
LeadLevels(b, k) ==
  LET a == b[3] + 2 * (b[5][1] * Cos(k) - b[5][2] * Sin(k))
      off == <<b[4] + b[6] * Cos(k), b[6] * Sin(k)>>
      c == Root(off[1] * off[1] + off[2] * off[2])
  IN IF b[1] = b[2] THEN <<a>> ELSE <<a - c, a + c>>
LeadBand(blocks, k) == Ascending(FlattenSeq([i \in DOMAIN blocks |-> LeadLevels(blocks[i], k)]))
=============================================================================
