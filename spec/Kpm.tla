------------------------------ MODULE Kpm ------------------------------
(* The kernel polynomial method on exact (Gaussian) integers.

   The scaled Hamiltonian H2 = 2 (H - b) / a has integer entries in the domain of this
   specification, so that the doubled Chebyshev vectors  V(n) = 2 T_n((H - b)/a) r  are
   integer vectors:   V(0) = 2 r,   V(1) = H2 r,   V(n+1) = H2 V(n) - V(n-1).
   All moments below are multiplied by 4 (moment zero is halved by the method). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

KAbs(x) == IF x < 0 THEN -x ELSE x
Limit == 20000          \* vectors beyond this are left out
CmpLimit == 20000       \* moments beyond this are not compared (single precision)

CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CConj(x) == <<x[1], -x[2]>>
CScale(k, x) == <<k * x[1], k * x[2]>>
CZero == <<0, 0>>
CSumSeq(s) == FoldLeft(CAdd, CZero, s)
CDot(l, r, n) == FoldLeft(LAMBDA acc, i : CAdd(acc, CMul(CConj(l[i]), r[i])), CZero, [i \in 1..n |-> i])

\* The number of moments which is computed when `n` are requested
RECURSIVE RoundMoments(_)
RoundMoments(n) == IF n < 2 THEN 2 ELSE IF (n - 2) % 4 = 0 THEN n ELSE RoundMoments(n + 1)

\* Rows of a sparse matrix with the entries <<row, col, re, im>> (indices start at 0)
RowsOf(n, es) == TLCEval([i \in 1..n |-> SelectSeq(es, LAMBDA e : e[1] = i - 1)])
MatVec(rows, v, n) ==
  TLCEval([i \in 1..n |-> FoldLeft(LAMBDA acc, e : CAdd(acc, CMul(<<e[3], e[4]>>, v[e[2] + 1])), CZero, rows[i])])

\* The scaled Hamiltonian from the upper triangle h
Upper(h) == h
Lower(h) == LET off == SelectSeq(h, LAMBDA e : e[1] # e[2])
            IN [k \in 1..Len(off) |-> <<off[k][2], off[k][1], off[k][3], -off[k][4]>>]
ScaledRows(n, h, a, b) ==
  LET es == [k \in 1..Len(h) |-> <<h[k][1], h[k][2], (h[k][3] * 2) \div a, (h[k][4] * 2) \div a>>]
      lo == Lower(es)
      di == IF b = 0 THEN <<>> ELSE [i \in 1..n |-> <<i - 1, i - 1, -((b * 2) \div a), 0>>]
  IN RowsOf(n, es \o lo \o di)
Scalable(h, a, b) == (b * 2) % a = 0 /\ \A k \in 1..Len(h) : (h[k][3] * 2) % a = 0 /\ (h[k][4] * 2) % a = 0

\* V(0), V(1), ... (as far as they stay below the limit)
MaxAbs(v) == FoldLeft(LAMBDA m, x : LET y == KAbs(x[1]) + KAbs(x[2]) IN IF y > m THEN y ELSE m, 0, v)
VecSub(u, v, n) == TLCEval([i \in 1..n |-> CSub(u[i], v[i])])
Unit(n, k) == [i \in 1..n |-> IF i = k + 1 THEN <<1, 0>> ELSE CZero]
ChebUpTo(limit, rows, r, n, num) ==
  LET v0 == TLCEval([i \in 1..n |-> CScale(2, r[i])])
      v1 == MatVec(rows, r, n)
      step(vs, k) == IF k > Len(vs) THEN vs          \* stopped before
                     ELSE LET w == VecSub(MatVec(rows, vs[k], n), vs[k - 1], n)
                          IN IF MaxAbs(w) > limit THEN vs ELSE TLCEval(Append(vs, w))
  IN IF num < 3 THEN TLCEval(SubSeq(<<v0, v1>>, 1, num))
     ELSE FoldLeft(step, <<v0, v1>>, [k \in 1..(num - 2) |-> k + 1])

Cheb(rows, r, n, num) == ChebUpTo(Limit, rows, r, n, num)

\* 4 x the moments <beta| op T_n |r> (a prefix of them), moment zero is halved
OpVec(oprows, hasop, v, n) == IF hasop THEN MatVec(oprows, v, n) ELSE v
Moments(rows, r, beta, oprows, hasop, n, num) ==
  LET vs == Cheb(rows, r, n, num)
  IN [k \in 1..Len(vs) |-> LET d == CDot(beta, OpVec(oprows, hasop, vs[k], n), n)
                           IN IF k = 1 THEN d ELSE CScale(2, d)]
UnitMoments(rows, src, dst, n, num) ==
  LET vs == Cheb(rows, Unit(n, src), n, num)
  IN [k \in 1..Len(vs) |-> IF k = 1 THEN vs[k][dst + 1] ELSE CScale(2, vs[k][dst + 1])]

\* The test kernel and its damping coefficients
Damping(kernel, k) == IF kernel = "custom" THEN 1 + ((k - 1) % 3) ELSE 1
IntegerKernel(kernel) == kernel \in {"custom", "dirichlet"}

\* 2 cos(m theta) for theta = pi/2, pi/3, 2 pi/3
Cos2(m, e) ==
  CASE e = 1 -> <<2, 0, -2, 0>>[(m % 4) + 1]
    [] e = 2 -> <<2, 1, -1, -2, -1, 1>>[(m % 6) + 1]
    [] OTHER -> <<2, -1, -1>>[(m % 3) + 1]
\* (-i)^m
MinusI(m) == << <<1, 0>>, <<0, -1>>, <<-1, 0>>, <<0, 1>> >>[(m % 4) + 1]
DensityValue(mom, kernel, e) ==
  FoldLeft(LAMBDA acc, k : acc + mom[k][1] * Damping(kernel, k) * Cos2(k - 1, e), 0, [k \in 1..Len(mom) |-> k])
GreensValue(mom, kernel) ==
  CSumSeq([k \in 1..Len(mom) |-> CScale(2 * Damping(kernel, k), CMul(mom[k], MinusI(k - 1)))])

Small(x) == KAbs(x[1]) <= CmpLimit /\ KAbs(x[2]) <= CmpLimit
\* `obs` agrees with the expected prefix
SameMoments(obs, exp, num) ==
  /\ Len(obs) = num
  /\ \A k \in 1..Len(exp) : Small(exp[k]) => obs[k] = exp[k]
AllSmall(exp, num) == Len(exp) = num /\ \A k \in 1..num : Small(exp[k])
=============================================================================
