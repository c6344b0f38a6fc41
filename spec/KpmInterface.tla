---------------------------- MODULE KpmInterface ----------------------------
(* The KPM interface of the Python layer: what it asks of an implementation, how the answers belong to
   sites and energies, and its own implementation: exact Chebyshev moments of integer matrices.
   A model: [sites |-> <<[x, y, sub, norb]>>, re, im |-> matrices (or <<>>)] *)
EXTENDS Spectra, TLC

(* ---- the columns of an answer ---- *)
Value(e, r, broadening) == 1000 * broadening + 100 * e + r
RowsOf(m, s) == [k \in 1..m.sites[s].norb |-> FirstRow(m.sites, s) + k - 2]
Column(row, e, broadening) == Value(e, row, broadening)
\* one row for each energy; the sum over the orbitals or a column for each
Table(energy, cols, broadening, reduce) ==
  [i \in DOMAIN energy |-> IF reduce /\ Len(cols) > 1 THEN <<Total([k \in DOMAIN cols |-> Column(cols[k], energy[i], broadening)])>>
                           ELSE [k \in DOMAIN cols |-> Column(cols[k], energy[i], broadening)]]
\* a single column is not a table
Flat(table) == [i \in DOMAIN table |-> table[i][1]]
SubOf(m, name) == IF name = "" THEN -1 ELSE LET k == CHOOSE k \in DOMAIN m.names : m.names[k][1] = name IN m.names[k][2]
Inside(s, box) == box[1][1] <= s.x /\ s.x <= box[1][2] /\ box[2][1] <= s.y /\ s.y <= box[2][2]
Chosen(m, box, sub) == SetToSortSeq({i \in DOMAIN m.sites : Inside(m.sites[i], box) /\ (sub < 0 \/ m.sites[i].sub = sub)}, LAMBDA a, b : a < b)
NearestTo(energy, e) == {i \in DOMAIN energy : \A j \in DOMAIN energy : Abs(energy[i] - e) <= Abs(energy[j] - e)}

(* ---- Chebyshev moments: a Hermitian matrix as a symmetric one of twice the size ---- *)
Doubled(re, im) == LET n == Len(re)
                   IN [i \in 1..(2 * n) |-> [j \in 1..(2 * n) |-> IF i <= n /\ j <= n THEN re[i][j] ELSE IF i > n /\ j > n THEN re[i - n][j - n]
                                                                 ELSE IF i <= n THEN -im[i][j - n] ELSE im[i - n][j]]]
Sum(v) == FoldLeft(LAMBDA acc, x : acc + x, 0, v)
\* h - center times v
Times(h, center, v) == TLCEval([i \in DOMAIN h |-> Sum([j \in DOMAIN v |-> (IF i = j THEN h[i][j] - center ELSE h[i][j]) * v[j]])])
\* 2 T_n(h / 2) at (i, i) for n = 0, 1, 2 ...
RECURSIVE Diagonal(_, _, _, _, _, _)
Diagonal(h, center, i, before, now, n) ==
  IF n = 0 THEN <<>>
  ELSE LET w == Times(h, center, now) IN <<before[i]>> \o Diagonal(h, center, i, now, TLCEval([k \in DOMAIN now |-> w[k] - before[k]]), n - 1)
Moments2(h, center, i, n) == Diagonal(h, center, i, [k \in DOMAIN h |-> IF k = i THEN 2 ELSE 0], Times(h, center, [k \in DOMAIN h |-> IF k = i THEN 1 ELSE 0]), n)
\* 2 cos(n arccos(w / 2)) for w = -1, 0, 1
Cos2(n, w) == CASE w = 0 -> (CASE n % 4 = 0 -> 2 [] n % 4 = 2 -> -2 [] OTHER -> 0)
                [] w = 1 -> (CASE n % 6 = 0 -> 2 [] n % 6 \in {1, 5} -> 1 [] n % 6 \in {2, 4} -> -1 [] OTHER -> -2)
                [] w = -1 -> (IF n % 3 = 0 THEN 2 ELSE -1)
\* 4 * sum of g_n mu_n cos(n arccos w); the first moment counts half
Series4(mu2, g, w) == Total([n \in DOMAIN g |-> g[n] * Cos2(n - 1, w) * (IF n = 1 THEN mu2[n] \div 2 ELSE mu2[n])])
ExactLdos(m, center, s, energy, g, reduce) ==
  LET rows == RowsOf(m, s)
      mu == [k \in DOMAIN rows |-> Moments2(m.h, center, rows[k] + 1, Len(g))]
      at(e, k) == Series4(mu[k], g, e - center)
  IN [i \in DOMAIN energy |-> IF reduce THEN <<Total([k \in DOMAIN rows |-> at(energy[i], k)])>> ELSE [k \in DOMAIN rows |-> at(energy[i], k)]]
Least(d) == CHOOSE x \in ToSet(d) : \A y \in ToSet(d) : x <= y
Largest(d) == CHOOSE x \in ToSet(d) : \A y \in ToSet(d) : y <= x

(* ---- the progress of a calculation: [running, value, size] ---- *)
Idle == [running |-> FALSE, value |-> 0, size |-> 0]
Report(p, delta, total) ==
  IF total = 1 THEN p
  ELSE IF delta < 0 THEN [running |-> TRUE, value |-> 0, size |-> total]
  ELSE IF delta = total THEN (IF p.running THEN [p EXCEPT !.running = FALSE, !.value = p.size] ELSE p)
  ELSE [p EXCEPT !.value = @ + delta]
=============================================================================
