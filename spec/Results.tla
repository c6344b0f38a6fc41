------------------------------- MODULE Results -------------------------------
(* Result objects of the Python layer, as values:
     map     [sites |-> <<[x, y, z, sub, data]>>, hops |-> {<<i, j, id>>}, bounds |-> <<[shift, hops]>>, kind]
             (site numbers start at 0; several ids may belong to one name)
     sweep   [x, y, data]       data[i][j] belongs to (x[i], y[j])
   An index is a sequence of the selected positions, which start at 0. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SetMax(S) == CHOOSE m \in S : \A x \in S : x <= m
SetMin(S) == CHOOSE m \in S : \A x \in S : m <= x
Where(n, P(_)) == SetToSortSeq({i \in 0..(n - 1) : P(i)}, LAMBDA a, b : a < b)

(* ---- indices ---- *)
SliceIndex(n, start, stop, step) == SetToSortSeq({i \in 0..(n - 1) : start <= i /\ i < stop /\ (i - start) % step = 0}, LAMBDA a, b : a < b)
MaskIndex(mask) == Where(Len(mask), LAMBDA i : mask[i + 1])
Wrapped(n, i) == IF i < 0 THEN i + n ELSE i
ListIndex(n, list) == [k \in DOMAIN list |-> Wrapped(n, list[k])]
IndexOf(n, idx) ==
  CASE idx.kind = "mask" -> MaskIndex(idx.mask)
    [] idx.kind = "list" -> ListIndex(n, idx.list)
    [] idx.kind = "int" -> <<Wrapped(n, idx.i)>>
    [] idx.kind = "slice" -> SliceIndex(n, idx.start, idx.stop, idx.step)

Take(s, ix) == [k \in DOMAIN ix |-> s[ix[k] + 1]]
\* the hoppings between the selected sites, renumbered
TakeHops(hops, ix) == UNION {{<<a - 1, b - 1, h[3]>> : a \in {k \in DOMAIN ix : ix[k] = h[1]}, b \in {k \in DOMAIN ix : ix[k] = h[2]}} : h \in hops}

(* ---- maps ---- *)
Select(m, ix) == [m EXCEPT !.sites = Take(@, ix), !.hops = TakeHops(@, ix),
                           !.bounds = [b \in DOMAIN @ |-> [@[b] EXCEPT !.hops = TakeHops(@, ix)]]]
WithData(m, d) == [m EXCEPT !.sites = [i \in DOMAIN @ |-> [@[i] EXCEPT !.data = d[i]]]]
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Clipped(m, lo, hi) == [m EXCEPT !.sites = [i \in DOMAIN @ |-> [@[i] EXCEPT !.data = Clip(@, lo, hi)]]]
SpatialOnly(m) == [m EXCEPT !.hops = {}, !.bounds = <<>>, !.kind = "spatial"]
Coordinate(s, name) == CASE name = "x" -> s.x [] name = "y" -> s.y [] name = "z" -> s.z [] name = "sub" -> s.sub [] name = "data" -> s.data
\* lower <= value < upper for all limits: <<name, lower, upper>>
Within(m, limits) == Where(Len(m.sites), LAMBDA i : \A l \in DOMAIN limits :
    LET v == Coordinate(m.sites[i + 1], limits[l][1]) IN limits[l][2] <= v /\ v < limits[l][3])
\* names: <<first, second, id>> (second: "" if it is a plain name)
FullName(n) == IF n[2] = "" THEN n[1] ELSE n[1] \o "|" \o n[2]
IdsOf(names, what) == {names[k][3] : k \in {k \in DOMAIN names : names[k][1] = what \/ FullName(names[k]) = what}}
Distance2(s, p) == LET d(k, v) == IF k <= Len(p) THEN (v - p[k]) * (v - p[k]) ELSE 0
                   IN d(1, s.x) + d(2, s.y) + d(3, s.z)

(* ---- sweeps ---- *)
TakeSweep(w, ix, iy) == [w EXCEPT !.x = Take(@, ix), !.y = Take(@, iy), !.data = [a \in DOMAIN ix |-> Take(w.data[ix[a] + 1], iy)]]
InLimits(v, lim) == IF lim = <<>> THEN Where(Len(v), LAMBDA i : TRUE) ELSE Where(Len(v), LAMBDA i : lim[1] <= v[i + 1] /\ v[i + 1] <= lim[2])
Mirror(n) == [k \in 1..(2 * n - 1) |-> IF k <= n THEN n - k ELSE k - n]
Negated(v) == [k \in 1..(2 * Len(v) - 1) |-> IF k <= Len(v) THEN -v[Len(v) + 1 - k] ELSE v[k - Len(v) + 1]]
MirroredX(w) == [w EXCEPT !.x = Negated(@), !.data = [k \in 1..(2 * Len(w.x) - 1) |-> w.data[Mirror(Len(w.x))[k] + 1]]]
MirroredY(w) == [w EXCEPT !.y = Negated(@), !.data = [a \in DOMAIN w.data |-> Take(w.data[a], Mirror(Len(w.y)))]]
Columns(d) == [c \in DOMAIN d[1] |-> [r \in DOMAIN d |-> d[r][c]]]
NearestOf(v, t) == {i \in DOMAIN v : \A j \in DOMAIN v : (v[i] - t) * (v[i] - t) <= (v[j] - t) * (v[j] - t)}

\* nested sequences of the given lengths, filled in order
Product(lens) == FoldLeft(LAMBDA acc, n : acc * n, 1, lens)
RECURSIVE Nest(_, _)
Nest(flat, lens) == IF Len(lens) = 1 THEN flat
                    ELSE LET rest == Product(Tail(lens)) IN [k \in 1..lens[1] |-> Nest(SubSeq(flat, (k - 1) * rest + 1, k * rest), Tail(lens))]

(* ---- paths: points with integer coordinates, segments of integer length; coordinates times 60 ---- *)
Isqrt(n) == CHOOSE r \in 0..n : r * r = n
Length(a, b) == Isqrt(SumSeq([k \in DOMAIN a |-> (b[k] - a[k]) * (b[k] - a[k])]))
Steps(a, b, step) == LET n == Length(a, b) \div step IN IF n < 1 THEN 1 ELSE n
Segment(a, b, n) == [i \in 1..n |-> [k \in DOMAIN a |-> 60 * a[k] + (60 * (b[k] - a[k]) * (i - 1)) \div n]]
Segments(ps, step) == [s \in 1..(Len(ps) - 1) |-> Segment(ps[s], ps[s + 1], Steps(ps[s], ps[s + 1], step))]
PathOf(ps, step) == FlattenSeq(Segments(ps, step)) \o <<[k \in DOMAIN ps[Len(ps)] |-> 60 * ps[Len(ps)][k]]>>
PointIndices(ps, step) == [s \in DOMAIN ps |-> SumSeq([t \in 1..(s - 1) |-> Len(Segments(ps, step)[t])])]
=============================================================================
