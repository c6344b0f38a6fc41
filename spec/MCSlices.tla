---------------------------- MODULE MCSlices ----------------------------
(* Design model of the optimized KPM recurrence: the Hamiltonian is reordered by the distance from the
   first source index, and each matrix-vector product covers the slices only which can matter (`optimal
   size`), optionally interleaved with the following one, slice by slice. Every graph with N nodes, any
   diagonal, sources, destinations and number of moments: the collected moments have to be the ones of
   the full recurrence.

   The vectors are integers (twice the Chebyshev vectors, see Kpm.tla). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS N,            \* nodes 1..N
          MaxMoments,
          Multi,        \* several sources (LDOS) and destinations (Green's function vector)
          Faulty        \* design mistakes to be refuted

Nodes == 1..N
Pairs == {p \in Nodes \X Nodes : p[1] < p[2]}
VARIABLES edges,        \* the hoppings of the Hamiltonian (all have the energy 1)
          src, dst,     \* sources (the first one is the origin of the reordering) and destinations
          s,            \* the source which this run computes
          num,          \* number of moments
          alg,          \* "basic" | "interleaved" | "diag" | "diaginter"
          n, r0, r1,    \* the next moment and the two vectors (r1 is the current one)
          k, start0, start1,   \* interleaved: slice and starts (in slices)
          m,            \* diagonal: partial sums
          mu,           \* the moments collected until now
          lev,          \* the slice of each node
          ref           \* the moments of the full recurrence

vars == <<edges, src, dst, s, num, alg, n, r0, r1, k, start0, start1, m, mu, lev, ref>>

Adj(e, i, j) == <<i, j>> \in e \/ <<j, i>> \in e
Diag(i) == IF i % 3 = 0 THEN 1 ELSE 0
H(e, i, j) == IF i = j THEN Diag(i) ELSE IF Adj(e, i, j) THEN 1 ELSE 0

\* distance from the first source; nodes which cannot be reached form the last slice
RECURSIVE Levels(_, _, _, _)
Levels(e, ls, front, d) ==
  LET next == {j \in Nodes : ls[j] = -1 /\ \E i \in front : Adj(e, i, j)}
  IN IF next = {} THEN
        IF "no_rest" \in Faulty THEN ls ELSE [i \in Nodes |-> IF ls[i] = -1 THEN d + 1 ELSE ls[i]]
     ELSE Levels(e, [i \in Nodes |-> IF i \in next THEN d + 1 ELSE ls[i]], next, d + 1)
LevelOf(e, o) == Levels(e, [i \in Nodes |-> IF i = o THEN 0 ELSE -1], {o}, 0)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Min2(a, b) == IF a < b THEN a ELSE b

LastLev == MaxOf({lev[i] : i \in Nodes})
SrcOff == IF "src_offset" \in Faulty THEN 0 ELSE MaxOf({lev[src[i]] : i \in 1..Len(src)})
DstOff == IF "dst_first" \in Faulty THEN lev[dst[1]] ELSE MaxOf({lev[dst[i]] : i \in 1..Len(dst)})
Index(i) ==
  LET mid == (num - 1 + DstOff - SrcOff) \div 2
      top == Min2(LastLev, mid + SrcOff)
  IN IF i < mid THEN Min2(top, i + SrcOff)
     ELSE Min2(top, num - 1 - i + DstOff - (IF "shrink" \in Faulty THEN 1 ELSE 0))

RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Sum(f) == SumTo(f, N)
Row(v, i) == Sum([j \in Nodes |-> H(edges, i, j) * v[j]])
\* y = H x - y for the slices from (inclusive) to (exclusive)
Spmv(from, to, x, y) == [i \in Nodes |-> IF lev[i] >= from /\ lev[i] < to THEN Row(x, i) - y[i] ELSE y[i]]
DotIn(from, to, x, y) == Sum([i \in Nodes |-> IF lev[i] >= from /\ lev[i] < to THEN x[i] * y[i] ELSE 0])

Unit == [i \in Nodes |-> IF i = s THEN 2 ELSE 0]
First == [i \in Nodes |-> Row(Unit, i) \div 2]
DstSet == {dst[i] : i \in 1..Len(dst)}
Diagonal == alg \in {"diag", "diaginter"}
\* twice the moment
Picked(v) == IF Diagonal THEN v[s] ELSE [d \in DstSet |-> v[d]]

Init ==
  /\ edges \in SUBSET Pairs
  /\ alg \in {"basic", "interleaved", "diag", "diaginter"}
  /\ num \in {c \in 2..MaxMoments : (c - 2) % 4 = 0}
  /\ IF alg \in {"diag", "diaginter"} THEN
        /\ src \in (IF Multi THEN {q \in [1..2 -> Nodes] : TRUE} ELSE {<<i>> : i \in Nodes})
        /\ dst = src
        /\ \E i \in 1..Len(src) : s = src[i]
     ELSE
        /\ src \in {<<i>> : i \in Nodes}
        /\ s = src[1]
        /\ dst \in (IF Multi THEN [1..2 -> Nodes] ELSE {<<i>> : i \in Nodes})
  /\ n = -num /\ k = 0 /\ start0 = 0 /\ start1 = 0 /\ m = <<0, 0, 0, 0>>
  /\ r0 = Unit /\ r1 = First /\ mu = <<>> /\ lev = <<>> /\ ref = <<>>

\* The reference: the full recurrence, one vector at a time
FullStep ==
  /\ n < 0
  /\ n' = n + 1
  /\ ref' = Append(ref, Picked(r0))
  /\ r0' = r1
  /\ r1' = [i \in Nodes |-> Row(r1, i) - r0[i]]
  /\ UNCHANGED <<edges, src, dst, s, num, alg, k, start0, start1, m, mu, lev>>

Setup ==
  /\ n = 0
  /\ n' = 2
  /\ lev' = LevelOf(edges, src[1])
  /\ r0' = Unit
  /\ r1' = First
  /\ mu' = << Picked(Unit), Picked(First) >>
  /\ UNCHANGED <<edges, src, dst, s, num, alg, k, start0, start1, m, ref>>

Limit == IF Diagonal THEN num \div 2 ELSE num - 1
Running == n >= 2 /\ n <= Limit

\* r0 := H r1 - r0, collect, swap
Basic ==
  /\ alg = "basic" /\ Running
  /\ LET y == Spmv(0, Index(n) + 1, r1, r0)
     IN /\ r1' = y /\ r0' = r1
        /\ mu' = Append(mu, [d \in DstSet |-> y[d]])
        /\ n' = n + 1
  /\ UNCHANGED <<edges, src, dst, s, num, alg, k, start0, start1, m, lev, ref>>

\* the diagonal collector: mu(2n-2) from <v(n-1)|v(n-1)> and mu(2n-1) from <v(n)|v(n-1)>
\* with the vectors doubled: 2 T(a+b) = (2Ta.2Tb) - 2T(a-b)
Collect(mm, a, b) == Append(Append(mm, a - mm[1]), b - mm[2])
Diag1 ==
  /\ alg = "diag" /\ Running
  /\ LET to == Index(n) + 1
         y == Spmv(0, to, r1, r0)
     IN /\ r1' = y /\ r0' = r1
        /\ mu' = Collect(mu, DotIn(0, to, r1, r1), DotIn(0, to, y, r1))
        /\ n' = n + 1
  /\ UNCHANGED <<edges, src, dst, s, num, alg, k, start0, start1, m, lev, ref>>

\* One slice of the interleaved algorithm; the iteration is finished after the last one
Slice ==
  /\ alg \in {"interleaved", "diaginter"} /\ Running
  /\ LET max1 == Index(n)
         max2 == Index(n + 1)
         end0 == k + 1
         end1 == IF k = max1 THEN max2 + 1 ELSE IF "eager" \in Faulty THEN end0 ELSE start0
         y0 == Spmv(start0, end0, r1, r0)
         y1 == Spmv(start1, end1, y0, r1)
         m1 == <<m[1] + DotIn(start0, end0, r1, r1), m[2] + DotIn(start0, end0, y0, r1),
                 m[3] + DotIn(start1, end1, y0, y0), m[4] + DotIn(start1, end1, y1, y0)>>
     IN /\ r0' = y0 /\ r1' = y1
        /\ IF k < max1 THEN
              /\ k' = k + 1 /\ start0' = end0
              /\ start1' = IF alg = "diaginter" THEN end1 ELSE start0
              /\ m' = m1
              /\ UNCHANGED <<n, mu>>
           ELSE
              /\ k' = 0 /\ start0' = 0 /\ start1' = 0 /\ m' = <<0, 0, 0, 0>>
              /\ n' = n + 2
              /\ mu' = IF alg = "diaginter" THEN Collect(Collect(mu, m1[1], m1[2]), m1[3], m1[4])
                       ELSE Append(Append(mu, [d \in DstSet |-> y0[d]]), [d \in DstSet |-> y1[d]])
  /\ UNCHANGED <<edges, src, dst, s, num, alg, lev, ref>>

Next == FullStep \/ Setup \/ Basic \/ Diag1 \/ Slice
Spec == Init /\ [][Next]_vars

\* What has been collected is right, and at the end it is complete
MomentsRight == \A i \in 1..Len(mu) : mu[i] = ref[i]
Complete == n > Limit => Len(mu) = num
=============================================================================
