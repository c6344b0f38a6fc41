---------------------------- MODULE TraceKpm ----------------------------
(* Checks recorded KPM calculations of the real code against Kpm.tla. *)
EXTENDS Kpm, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st

Ev(t, i) == Traces[t].ev[i]
Nothing == [n |-> 0, rows |-> <<>>, a |-> 1, b |-> 0, kernel |-> "dirichlet", type |-> "d", h |-> <<>>,
            sites |-> <<>>, names |-> <<>>, multi |-> FALSE, auto |-> FALSE]

Configure(s, e) ==
  [n |-> e.n, h |-> e.h, a |-> IF e.op = "core" THEN e.a ELSE s.a, b |-> IF e.op = "core" THEN e.b ELSE s.b,
   kernel |-> IF e.op = "core" THEN e.kernel ELSE s.kernel, type |-> e.type,
   rows |-> ScaledRows(e.n, e.h, IF e.op = "core" THEN e.a ELSE s.a, IF e.op = "core" THEN e.b ELSE s.b),
   sites |-> <<>>, names |-> <<>>, multi |-> FALSE,
   auto |-> IF e.op = "core" THEN e.auto ELSE s.auto]
\* A model: the Hamiltonian and the sites as the user sees them
ConfigureModel(s, e) ==
  LET o == e.obs
      a == IF e.op = "kpm" THEN e.a ELSE s.a
      b == IF e.op = "kpm" THEN e.b ELSE s.b
  IN [n |-> o.n, h |-> o.h, a |-> a, b |-> b, kernel |-> IF e.op = "kpm" THEN e.kernel ELSE s.kernel,
      type |-> o.type, rows |-> ScaledRows(o.n, o.h, a, b), sites |-> o.sites, names |-> o.names, multi |-> o.multi,
      auto |-> FALSE]
UsableModel(s, e) ==
  LET o == e.obs
      a == IF e.op = "kpm" THEN e.a ELSE s.a
      b == IF e.op = "kpm" THEN e.b ELSE s.b
  IN /\ o.bad = "" /\ \A k \in 1..Len(o.h) : KAbs(o.h[k][3]) < 1000 /\ KAbs(o.h[k][4]) < 1000
     /\ Scalable(o.h, a, b)

Small30(x) == KAbs(x) <= 30000
MomentsMismatch(s, e) ==
  LET o == e.obs
      N == RoundMoments(e.num)
      beta == IF Len(e.beta) = 0 THEN e.alpha ELSE e.beta
      exp == TLCEval(Moments(s.rows, e.alpha, beta, IF e.hasop THEN RowsOf(s.n, e.mat) ELSE <<>>, e.hasop, s.n, N))
      upto == IF Len(exp) < e.num THEN Len(exp) ELSE e.num
  IN CASE o.nm # N -> "number of moments"
       [] ~SameMoments(o.raw[1], exp, N) -> "moments"
       [] IntegerKernel(s.kernel)
          /\ ~(Len(o.mom) = e.num
               /\ \A k \in 1..upto : Small(CScale(3, exp[k])) => o.mom[k] = CScale(Damping(s.kernel, k), exp[k]))
            -> "damped moments"
       [] OTHER -> ""

\* progress: it begins with -1, ends with the total and every vector is reported in between
ProgressOk(p, total) ==
  /\ Len(p) >= 2
  /\ \A k \in 1..Len(p) : p[k][2] = total
  /\ p[1][1] = -1 /\ p[Len(p)][1] = total
  /\ \A k \in 2..(Len(p) - 1) : p[k][1] > 0
  /\ FoldLeft(LAMBDA acc, k : acc + p[k][1], 0, [k \in 1..(Len(p) - 2) |-> k + 1]) >= total

DensityOk(s, vals, mom, N) ==
  (IntegerKernel(s.kernel) /\ AllSmall(mom, N)) =>
     \A t \in 1..3 : LET v == DensityValue(mom, s.kernel, t) IN Small30(v) => vals[t] = v

LdosMismatch(s, e) ==
  LET o == e.obs
      N == RoundMoments(e.num)
      exp == TLCEval([c \in 1..Len(e.idx) |-> UnitMoments(s.rows, e.idx[c], e.idx[c], s.n, N)])
  IN CASE o.nm # N -> "number of moments"
       [] Len(o.raw) # Len(e.idx) \/ Len(o.val) # Len(e.idx) -> "number of columns"
       [] \E c \in 1..Len(e.idx) : ~SameMoments(o.raw[c], exp[c], N) -> "LDOS moments"
       [] \E c \in 1..Len(e.idx) : ~DensityOk(s, o.val[c], exp[c], N) -> "LDOS values"
       [] ~ProgressOk(o.prog, Len(e.idx)) -> "progress"
       [] OTHER -> ""

\* the sum over the random vectors (the driver multiplies the average by their number)
SumMoments(s, vecs, N) ==
  LET ms == TLCEval([k \in 1..Len(vecs) |-> Moments(s.rows, vecs[k], vecs[k], <<>>, FALSE, s.n, N)])
      len == CHOOSE m \in 0..N : /\ \E k \in 1..Len(ms) : Len(ms[k]) = m
                                 /\ \A k \in 1..Len(ms) : Len(ms[k]) >= m
  IN TLCEval([i \in 1..len |-> CSumSeq([k \in 1..Len(ms) |-> ms[k][i]])])
PlusMinusOne(vecs, n) == \A k \in 1..Len(vecs) : /\ Len(vecs[k]) = n
                                                /\ \A i \in 1..n : vecs[k][i] \in {<<1, 0>>, <<-1, 0>>}
\* The random vectors of complex Hamiltonians have arbitrary phases. What is recorded of them are the sums
\* P[i][j] = 1000 sum conj(r_i) r_j, rounded; every stochastic moment is linear in them: sum_ij M[i][j] P[i][j] / 1000
\* where M is an exact matrix of integers.
Phases == 1000
Norm1(M, n) == FoldLeft(LAMBDA acc, i : FoldLeft(LAMBDA a, j : a + KAbs(M[i][j][1]) + KAbs(M[i][j][2]), acc, [j \in 1..n |-> j]),
                        0, [i \in 1..n |-> i])
Quad(M, P, n) == CSumSeq([i \in 1..n |-> CSumSeq([j \in 1..n |-> CMul(M[i][j], P[i][j])])])
Near(x, y, tol) == KAbs(x[1] - y[1]) <= tol /\ KAbs(x[2] - y[2]) <= tol
\* (a sum of rounding errors of at most 1/2 in each product)
QuadOk(M, P, n, num, obs) ==
  LET size == Norm1(M, n)
  IN size * num > 40000 \/ Near(obs, Quad(M, P, n), size + 3)
UnitPhases(o, n, num) ==
  /\ o.rand.unit
  /\ Len(o.rand.p) = n
  /\ \A i \in 1..n : Near(o.rand.p[i][i], <<Phases * num, 0>>, 2 + num)
\* the matrices 4 T_k
ChebMatrices(s, N) ==
  LET cs == TLCEval([j \in 1..s.n |-> ChebUpTo(3000, s.rows, Unit(s.n, j - 1), s.n, N)])
      len == CHOOSE m \in 0..N : /\ \E k \in 1..s.n : Len(cs[k]) = m
                                 /\ \A k \in 1..s.n : Len(cs[k]) >= m
  IN TLCEval([k \in 1..len |-> [i \in 1..s.n |-> [j \in 1..s.n |-> IF k = 1 THEN cs[j][k][i] ELSE CScale(2, cs[j][k][i])]]])
PhaseDosMismatch(s, e) ==
  LET o == e.obs
      N == RoundMoments(e.num)
      T == ChebMatrices(s, N)
  IN CASE o.nm # N -> "number of moments"
       [] ~UnitPhases(o, s.n, e.vectors) -> "random vectors"
       [] Len(o.raw) # 1 \/ Len(o.raw[1]) # N -> "number of DOS moments"
       [] \E k \in 1..Len(T) : ~QuadOk(T[k], o.rand.p, s.n, e.vectors, o.raw[1][k]) -> "DOS moments"
       [] /\ IntegerKernel(s.kernel)
          /\ \A k \in 1..N : KAbs(o.raw[1][k][1]) < 1000000
          /\ \E t \in 1..3 : LET v == DensityValue(o.raw[1], s.kernel, t)
                              IN KAbs(o.val[1][t] - v) > 8 * N + KAbs(v) \div 1000 -> "DOS values"
       [] ~ProgressOk(o.prog, e.vectors) -> "progress"
       [] OTHER -> ""
\* Random vectors have to be independent: the sums of r_i r_j and of conj(r_i) r_j over many vectors stay small
\* compared to their number (for 256 vectors 0.4 are more than six standard deviations)
RandomMismatch(s, e) ==
  LET o == e.obs
      small(v) == KAbs(v[1]) <= 400 * e.vectors /\ KAbs(v[2]) <= 400 * e.vectors
  IN CASE ~UnitPhases([rand |-> o], s.n, e.vectors) -> "random vectors"
       [] \E i \in 1..s.n : \E j \in 1..s.n : i # j /\ ~(small(o.p[i][j]) /\ small(o.q[i][j])) -> "the random vectors aren't independent"
       [] s.type \in {"cf", "cd"} /\ \E i \in 1..s.n : ~small(o.q[i][i]) -> "the phases aren't random"
       [] s.type \in {"f", "d"} /\ \E i \in 1..s.n : \E j \in 1..s.n : o.p[i][j][2] # 0 -> "real random vectors"
       [] OTHER -> ""

RealDosMismatch(s, e) ==
  LET o == e.obs
      N == RoundMoments(e.num)
      exp == SumMoments(s, o.rand, N)
  IN CASE o.nm # N -> "number of moments"
       [] ~PlusMinusOne(o.rand, s.n) -> "random vectors"
       [] Len(o.raw) # 1 \/ ~SameMoments(o.raw[1], exp, N) -> "DOS moments"
       [] ~DensityOk(s, o.val[1], exp, N) -> "DOS values"
       [] ~ProgressOk(o.prog, e.vectors) -> "progress"
       [] OTHER -> ""

ConjAll(m) == [k \in 1..Len(m) |-> CConj(m[k])]
DosMismatch(s, e) == IF s.type \in {"cf", "cd"} THEN PhaseDosMismatch(s, e) ELSE RealDosMismatch(s, e)

\* The moments of the column c: <row| T_n |col>
GreensMismatch(s, e) ==
  LET o == e.obs
      N == RoundMoments(e.num)
      exp == TLCEval([c \in 1..Len(e.cols) |-> UnitMoments(s.rows, e.cols[c], e.row, s.n, N)])
      conj == TLCEval([c \in 1..Len(e.cols) |-> ConjAll(exp[c])])
  IN CASE o.nm # N -> "number of moments"
       [] Len(o.raw) # Len(e.cols) \/ Len(o.val) # Len(e.cols) -> "number of columns"
       [] (\E c \in 1..Len(e.cols) : ~SameMoments(o.raw[c], exp[c], N))
          /\ (\E c \in 1..Len(e.cols) : ~SameMoments(o.raw[c], conj[c], N)) -> "Green's function moments"
       [] IntegerKernel(s.kernel) /\ \E c \in 1..Len(e.cols) :
             /\ AllSmall(exp[c], N)
             /\ LET v == GreensValue(exp[c], s.kernel)
                IN Small30(v[1]) /\ Small30(v[2]) /\ o.val[c] # v -> "Green's function values"
       [] OTHER -> ""

\* The velocity operator of the direction given by the coordinates: the entries H_ij (x_i - x_j)
Velocity(n, h, x) ==
  LET up == [k \in 1..Len(h) |-> LET d == x[h[k][1] + 1] - x[h[k][2] + 1]
                                 IN <<h[k][1], h[k][2], d * h[k][3], d * h[k][4]>>]
      off == SelectSeq(h, LAMBDA e : e[1] # e[2])
      lo == [k \in 1..Len(off) |-> LET d == x[off[k][2] + 1] - x[off[k][1] + 1]
                                   IN <<off[k][2], off[k][1], d * off[k][3], -d * off[k][4]>>]
  IN RowsOf(n, up \o lo)
Halved(v, k, n) == [i \in 1..n |-> IF k = 1 THEN v[i] ELSE CScale(2, v[i])]
\* 16 x mu_pq = sum over the vectors of (4 T_p v_l |r>) (4 v_r T_q |r>)^H
CondMoments(s, e, vecs, N) ==
  LET vl == Velocity(s.n, s.h, e.left)
      vr == Velocity(s.n, s.h, e.right)
      ls == TLCEval([k \in 1..Len(vecs) |-> ChebUpTo(300, s.rows, MatVec(vl, vecs[k], s.n), s.n, N)])
      rs == TLCEval([k \in 1..Len(vecs) |->
                       LET c == ChebUpTo(300, s.rows, vecs[k], s.n, N)
                       IN [p \in 1..Len(c) |-> MatVec(vr, c[p], s.n)]])
      len == CHOOSE m \in 0..N : /\ \E k \in 1..Len(vecs) : m \in {Len(ls[k]), Len(rs[k])}
                                 /\ \A k \in 1..Len(vecs) : Len(ls[k]) >= m /\ Len(rs[k]) >= m
  IN TLCEval([p \in 1..len |-> [q \in 1..len |->
        CSumSeq([k \in 1..Len(vecs) |->
            CScale((IF p = 1 THEN 1 ELSE 2) * (IF q = 1 THEN 1 ELSE 2), CDot(rs[k][q], ls[k][p], s.n))])]])
\* The same for random phases: 16 mu_pq = sum of conj(r_i) r_j (4 T_q v_r^H ... )_ij
PhaseCondMismatch(s, e) ==
  LET o == e.obs
      n == s.n
      N == RoundMoments(e.num)
      vl == Velocity(n, s.h, e.left)
      vr == Velocity(n, s.h, e.right)
      ls == TLCEval([j \in 1..n |-> ChebUpTo(300, s.rows, MatVec(vl, Unit(n, j - 1), n), n, N)])
      rs == TLCEval([i \in 1..n |-> LET c == ChebUpTo(300, s.rows, Unit(n, i - 1), n, N)
                                     IN [p \in 1..Len(c) |-> MatVec(vr, c[p], n)]])
      len == CHOOSE m \in 0..N : /\ \E k \in 1..n : m \in {Len(ls[k]), Len(rs[k])}
                                 /\ \A k \in 1..n : Len(ls[k]) >= m /\ Len(rs[k]) >= m
      \* (the cost is most^2 n^3)
      most == LET k == IF n <= 6 THEN N ELSE IF n <= 9 THEN 4 ELSE IF n <= 14 THEN 2 ELSE 1 IN IF len < k THEN len ELSE k
      M(p, q) == TLCEval([i \in 1..n |-> [j \in 1..n |->
                    CScale((IF p = 1 THEN 1 ELSE 2) * (IF q = 1 THEN 1 ELSE 2), CDot(rs[i][q], ls[j][p], n))]])
  IN CASE o.nm # N -> "number of moments"
       [] ~UnitPhases(o, n, e.vectors) -> "random vectors"
       [] Len(o.mu) # N -> "size of the moment matrix"
       [] \E p \in 1..most : \E q \in 1..most : ~QuadOk(M(p, q), o.rand.p, n, e.vectors, o.mu[p][q]) -> "conductivity moments"
       [] ~o.agree -> "conductivity values"
       [] OTHER -> ""
RealCondMismatch(s, e) ==
  LET o == e.obs
      N == RoundMoments(e.num)
      exp == CondMoments(s, e, o.rand, N)
  IN CASE o.nm # N -> "number of moments"
       [] ~PlusMinusOne(o.rand, s.n) -> "random vectors"
       [] Len(o.mu) # N -> "size of the moment matrix"
       [] \E p \in 1..Len(exp) : \E q \in 1..Len(exp) : Small(exp[p][q]) /\ o.mu[p][q] # exp[p][q] -> "conductivity moments"
       [] ~o.agree -> "conductivity values"
       [] OTHER -> ""

CondMismatch(s, e) == IF s.type \in {"cf", "cd"} THEN PhaseCondMismatch(s, e) ELSE RealCondMismatch(s, e)

(* ------------------------------------------------------------------ the interface for models *)
Complex(s) == s.type \in {"cf", "cd"}
Expected(e, valid, why) ==
  IF ~valid THEN (IF e.res = "ok" THEN "accepted an invalid call" ELSE "")
  ELSE IF e.res # "ok" THEN "rejected a valid call" ELSE why

Real(v) == \A i \in 1..Len(v) : v[i][2] = 0
KMoments(s, e) ==
  LET valid == /\ Len(e.alpha) = s.n
               /\ Len(e.beta) \in {0, s.n}
               /\ e.hasop => e.oprows = s.n
               /\ Complex(s) \/ (Real(e.alpha) /\ Real(e.beta) /\ (e.hasop => \A k \in 1..Len(e.mat) : e.mat[k][4] = 0))
  IN Expected(e, valid, MomentsMismatch(s, e))

Square(x) == x * x
Dist2(p, q) == Square(p[1] - q[1]) + Square(p[2] - q[2]) + Square(p[3] - q[3])
InShape(sh, p) == IF sh.kind = "box" THEN \A x \in 1..3 : sh.lo[x] <= p[x] /\ p[x] <= sh.hi[x]
                  ELSE Dist2(p, sh.c) < sh.r2
OfSublattice(s, sub) == {i \in 1..Len(s.sites) : sub = "" \/ s.sites[i].sub = sub}
KnownName(s, sub) == sub = "" \/ \E k \in 1..Len(s.names) : s.names[k] = sub

\* the values (one column for each index, or their sum)
ValuesOk(s, e, idx, exp, N, reduce) ==
  IF reduce /\ Len(idx) > 1 THEN
     /\ Len(e.obs.val) = 1
     /\ (IntegerKernel(s.kernel) /\ \A c \in 1..Len(idx) : AllSmall(exp[c], N)) =>
          \A t \in 1..3 : LET v == FoldLeft(LAMBDA acc, c : acc + DensityValue(exp[c], s.kernel, t), 0, [c \in 1..Len(idx) |-> c])
                          IN Small30(v) => e.obs.val[1][t] = v
  ELSE Len(e.obs.val) = Len(idx) /\ \A c \in 1..Len(idx) : DensityOk(s, e.obs.val[c], exp[c], N)
LdosOf(s, e, idx, reduce) ==
  LET o == e.obs
      N == RoundMoments(e.num)
      exp == TLCEval([c \in 1..Len(idx) |-> UnitMoments(s.rows, idx[c], idx[c], s.n, N)])
  IN CASE o.nm # N -> "number of moments"
       [] Len(o.raw) # Len(idx) -> "number of columns"
       [] \E c \in 1..Len(idx) : ~SameMoments(o.raw[c], exp[c], N) -> "LDOS moments"
       [] ~ValuesOk(s, e, idx, exp, N, reduce) -> "LDOS values"
       [] ~ProgressOk(o.prog, Len(idx)) -> "progress"
       [] OTHER -> ""
HamIndices(s, i) == [k \in 1..Len(s.sites[i].ham) |-> s.sites[i].ham[k] - 1]
KLdos(s, e) ==
  LET cand == OfSublattice(s, e.sub)
      near == {i \in cand : \A j \in cand : Dist2(s.sites[i].pos, e.pos) <= Dist2(s.sites[j].pos, e.pos)}
      valid == KnownName(s, e.sub) /\ cand # {}
      good == {i \in near : LdosOf(s, e, HamIndices(s, i), e.reduce) = ""}
  IN Expected(e, valid, IF good # {} THEN "" ELSE "LDOS of the nearest site: " \o LdosOf(s, e, HamIndices(s, CHOOSE i \in near : TRUE), e.reduce))
KSpatial(s, e) ==
  LET all == SelectSeq([i \in 1..Len(s.sites) |-> i],
                       LAMBDA i : (e.sub = "" \/ s.sites[i].sub = e.sub) /\ InShape(e.shape, s.sites[i].pos))
      idx == [k \in 1..Len(all) |-> s.sites[all[k]].ham[1] - 1]
  IN IF all = <<>> /\ ~s.multi THEN (IF e.res = "ok" /\ (Len(e.obs.val) # 0 \/ ~KnownName(s, e.sub)) THEN "LDOS of no sites" ELSE "")
     ELSE Expected(e, ~s.multi /\ KnownName(s, e.sub), LdosOf(s, e, idx, FALSE))
InMatrix(s, i) == i >= 0 /\ i < s.n
KGreens(s, e) ==
  IF e.cols = <<>> /\ InMatrix(s, e.row) THEN (IF e.res = "ok" /\ Len(e.obs.val) # 0 THEN "number of columns" ELSE "")
  ELSE Expected(e, InMatrix(s, e.row) /\ \A c \in 1..Len(e.cols) : InMatrix(s, e.cols[c]), GreensMismatch(s, e))
\* The coordinates of each row of the Hamiltonian
Coordinates(s, axis) ==
  [h \in 1..s.n |-> LET i == CHOOSE i \in 1..Len(s.sites) : \E k \in 1..Len(s.sites[i].ham) : s.sites[i].ham[k] = h
                    IN s.sites[i].pos[axis]]
KCond(s, e) ==
  LET valid == Len(e.axes) = 2 /\ \A k \in 1..Len(e.axes) : e.axes[k] > 0
  IN IF ~valid THEN Expected(e, FALSE, "")
     ELSE Expected(e, TRUE, CondMismatch(s, [obs |-> e.obs, vectors |-> e.vectors, num |-> e.num, left |-> Coordinates(s, e.axes[1]),
                                             right |-> Coordinates(s, e.axes[2])]))

(* The bounds of the spectrum. An eigenvector v without zeros certifies the largest eigenvalue if no
   off-diagonal element disagrees with the signs of v (Perron-Frobenius), the smallest one if all disagree. *)
EntrySign(v, h, i, j) == h * (IF v[i] > 0 THEN 1 ELSE -1) * (IF v[j] > 0 THEN 1 ELSE -1)
Dense(s) == [i \in 1..s.n |-> [j \in 1..s.n |->
              FoldLeft(LAMBDA acc, e : IF (e[1] = i - 1 /\ e[2] = j - 1) \/ (e[1] = j - 1 /\ e[2] = i - 1) THEN acc + e[3] ELSE acc, 0, s.h)]]
Eigen(m, n, v, x) == \A i \in 1..n : FoldLeft(LAMBDA acc, j : acc + m[i][j] * v[j], 0, [j \in 1..n |-> j]) = x * v[i]
Certified(s, e) ==
  LET m == TLCEval(Dense(s)) IN
  /\ \A i \in 1..s.n : e.vmax[i] # 0 /\ e.vmin[i] # 0
  /\ Eigen(m, s.n, e.vmax, e.emax) /\ Eigen(m, s.n, e.vmin, e.emin)
  /\ \A i \in 1..s.n : \A j \in 1..s.n : i # j => /\ EntrySign(e.vmax, m[i][j], i, j) >= 0
                                                 /\ EntrySign(e.vmin, m[i][j], i, j) <= 0
\* a = 1.01 (max - min) / 2, b = (max + min) / 2, within 0.5 %
ScaleMismatch(s, e) ==
  LET w == e.emax - e.emin
  IN IF e.res # "ok" THEN "the bounds were not found"
     ELSE IF KAbs(e.obs.a - 5050 * w) > 25 * w THEN "scaling factor a"
     ELSE IF KAbs(e.obs.b - 5000 * (e.emax + e.emin)) > 25 * w THEN "scaling factor b" ELSE ""

ModelOps == {"k_moments", "k_ldos", "k_spatial", "k_dos", "k_greens", "k_greensv", "k_cond"}
ModelMismatch(s, e) ==
  CASE e.op = "k_moments" -> KMoments(s, e)
    [] e.op = "k_ldos" -> KLdos(s, e)
    [] e.op = "k_spatial" -> KSpatial(s, e)
    [] e.op = "k_dos" -> Expected(e, TRUE, DosMismatch(s, e))
    [] e.op \in {"k_greens", "k_greensv"} -> KGreens(s, e)
    [] OTHER -> KCond(s, e)

Mismatch(s, e) ==
  CASE e.op = "moments" -> MomentsMismatch(s, e)
    [] e.op = "ldos" -> LdosMismatch(s, e)
    [] e.op = "dos" -> DosMismatch(s, e)
    [] e.op = "greens" -> GreensMismatch(s, e)
    [] e.op = "cond" -> CondMismatch(s, e)
    [] e.op = "random" -> RandomMismatch(s, e)
    [] OTHER -> ""

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Nothing
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         model == e.op \in {"kpm", "set_model"}
         \* an invalid model is refused and changes nothing
         refused == e.op = "set_model" /\ e.res = "ok" /\ e.obs.bad = "refused"
         wrong == e.op = "set_model" /\ e.res = "ok" /\ e.obs.bad = "accepted"
         usable == ~model \/ e.res # "ok" \/ refused \/ wrong \/ UsableModel(st, e)
         s == IF e.op \in {"core", "set_ham"} THEN Configure(st, e)
              ELSE IF model /\ e.res = "ok" /\ usable /\ ~refused /\ ~wrong THEN ConfigureModel(st, e) ELSE st
         skip == ~usable \/ (e.op = "mutate" /\ e.res = "ok" /\ e.obs.bad # "") \/ (e.op = "scale" /\ ~Certified(s, e))
         why == IF wrong THEN "accepted an invalid model"
                ELSE IF e.op \in ModelOps THEN ModelMismatch(s, e)
                ELSE IF e.op = "scale" THEN ScaleMismatch(s, e)
                ELSE IF e.res # "ok" THEN "rejected a valid call"
                ELSE IF e.op \in {"core", "set_ham"}
                     THEN (IF Scalable(e.h, s.a, s.b) THEN "" ELSE "scenario")
                ELSE Mismatch(s, e)
     IN IF skip THEN
           /\ PrintT("SKIP " \o ToString(tid) \o " event " \o ToString(l) \o ": " \o "outside of the domain")
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
        ELSE IF why = "" THEN
           /\ st' = s /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
