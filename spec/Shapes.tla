-------------------------------- MODULE Shapes --------------------------------
(* Shapes as sets of points (coordinates in halves):
     polygon [vertices]  box [ranges: open intervals]  disc [center, radius]
     compose [how, a, b]  shift [of, by]
   and the reciprocal lattice of integer vectors. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Cross(a, b) == a[1] * b[2] - a[2] * b[1]
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2]
Prev(n, i) == IF i = 1 THEN n ELSE i - 1
Pad3(v) == [i \in 1..3 |-> IF i <= Len(v) THEN v[i] ELSE 0]

\* does the point lie on a side (it may then be inside or not)
OnSide(a, b, p) == LET d == Sub2(b, a)  q == Sub2(p, a) IN Cross(d, q) = 0 /\ 0 <= Dot(d, q) /\ Dot(d, q) <= Dot(d, d)
\* is the side to the left of the point, at the point's height
Crosses(a, b, p) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ LET c == Cross(Sub2(b, a), Sub2(p, a)) IN IF b[2] > a[2] THEN c < 0 ELSE c > 0
InPolygon(vs, p) == Cardinality({i \in DOMAIN vs : Crosses(vs[Prev(Len(vs), i)], vs[i], p)}) % 2 = 1
InBox(ranges, p) == \A i \in DOMAIN ranges : ranges[i][1] < p[i] /\ p[i] < ranges[i][2]
InDisc(c, r, p) == Dot(Sub2(p, c), Sub2(p, c)) < r * r
Combine(how, a, b) == CASE how = "and" -> a /\ b [] how \in {"or", "add"} -> a \/ b [] how = "xor" -> a # b [] how = "sub" -> a /\ ~b

RECURSIVE Covers(_, _)
Covers(s, p) ==
  CASE s.kind = "polygon" -> InPolygon(s.vertices, p)
    [] s.kind = "box" -> InBox(s.ranges, p)
    [] s.kind = "disc" -> InDisc(s.center, s.radius, p)
    [] s.kind = "compose" -> Combine(s.how, Covers(s.a, p), Covers(s.b, p))
    [] s.kind = "shift" -> Covers(s.of, [i \in 1..3 |-> p[i] - s.by[i]])
\* is the point on an edge of one of the parts
RECURSIVE OnEdge(_, _)
OnEdge(s, p) ==
  CASE s.kind = "polygon" -> \E i \in DOMAIN s.vertices : OnSide(s.vertices[Prev(Len(s.vertices), i)], s.vertices[i], p)
    [] s.kind = "box" -> \E i \in DOMAIN s.ranges : p[i] \in {s.ranges[i][1], s.ranges[i][2]}
    [] s.kind = "disc" -> Dot(Sub2(p, s.center), Sub2(p, s.center)) = s.radius * s.radius
    [] s.kind = "compose" -> OnEdge(s.a, p) \/ OnEdge(s.b, p)
    [] s.kind = "shift" -> OnEdge(s.of, [i \in 1..3 |-> p[i] - s.by[i]])

\* flat shapes are only meant for points in their plane
RECURSIVE InPlane(_, _)
InPlane(s, p) ==
  CASE s.kind \in {"polygon", "disc"} -> p[3] = 0
    [] s.kind = "box" -> TRUE
    [] s.kind = "compose" -> InPlane(s.a, p) /\ InPlane(s.b, p)
    [] s.kind = "shift" -> InPlane(s.of, [i \in 1..3 |-> p[i] - s.by[i]])

\* may the point be in the convex hull of the vertices: seen from several directions
Directions == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, -1, 0>>, <<2, 1, 0>>, <<1, 2, 0>>, <<2, -1, 0>>, <<1, -2, 0>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, -1>>>>
Along(d, p) == d[1] * p[1] + d[2] * p[2] + d[3] * p[3]
Enclosed(vs, p) == \A d \in 1..Len(Directions) : LET at(v) == Along(Directions[d], v) IN
  (\E v \in ToSet(vs) : at(v) <= at(p)) /\ (\E v \in ToSet(vs) : at(v) >= at(p))

(* ---- drawings ---- *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Largest(S) == CHOOSE x \in S : \A y \in S : x >= y
IsFlat(vs) == \A i \in DOMAIN vs : vs[i][3] = 0
\* the borders of the picture: left, right, bottom, top
Frame(vs) == <<Least({v[1] : v \in ToSet(vs)}), Largest({v[1] : v \in ToSet(vs)}), Least({v[2] : v \in ToSet(vs)}), Largest({v[2] : v \in ToSet(vs)})>>
\* the point of a pixel (times k), with k pixels for each half: the first row is at the top
PixelAt(frame, k, row, column) == <<k * frame[1] + column - 1, k * frame[4] - (row - 1)>>
Rows(frame, k) == k * (frame[4] - frame[3]) + 1
Columns(frame, k) == k * (frame[2] - frame[1]) + 1
\* the same shape with all lengths k times as large
RECURSIVE Larger(_, _)
Larger(s, k) ==
  CASE s.kind = "polygon" -> [s EXCEPT !.vertices = [i \in DOMAIN @ |-> [c \in DOMAIN @[i] |-> k * s.vertices[i][c]]]]
    [] s.kind = "box" -> [s EXCEPT !.ranges = [i \in DOMAIN @ |-> <<k * s.ranges[i][1], k * s.ranges[i][2]>>]]
    [] s.kind = "disc" -> [s EXCEPT !.center = [c \in DOMAIN @ |-> k * s.center[c]], !.radius = k * @]
    [] s.kind = "compose" -> [s EXCEPT !.a = Larger(@, k), !.b = Larger(s.b, k)]
    [] s.kind = "shift" -> [s EXCEPT !.of = Larger(@, k), !.by = [c \in DOMAIN @ |-> k * s.by[c]]]

(* ---- reciprocal lattice: integer vectors; results times the determinant ---- *)
Det2(v) == Cross(v[1], v[2])
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Det3(v) == Along(v[1], Cross3(v[2], v[3]))
Determinant(v) == CASE Len(v) = 1 -> v[1][1] [] Len(v) = 2 -> Det2(v) [] Len(v) = 3 -> Det3(v)
Reciprocal(v) ==
  CASE Len(v) = 1 -> <<<<1, 0, 0>>>>
    [] Len(v) = 2 -> <<<<v[2][2], -v[2][1], 0>>, <<-v[1][2], v[1][1], 0>>>>
    [] Len(v) = 3 -> <<Cross3(v[2], v[3]), Cross3(v[3], v[1]), Cross3(v[1], v[2])>>
Iabs(x) == IF x < 0 THEN -x ELSE x
\* vertices (times 2 det^2 in units of the reciprocal lattice): all are closer to the origin than to any other
\* reciprocal lattice point, in counterclockwise order, and they enclose the area of a unit cell
Combination(g, n, m) == <<n * g[1][1] + m * g[2][1], n * g[1][2] + m * g[2][2]>>
\* (rounding may split one vertex into two)
RECURSIVE Distinct(_, _)
Distinct(z, i) == IF i > Len(z) THEN <<>> ELSE (IF z[i] = z[IF i = 1 THEN Len(z) ELSE i - 1] THEN <<>> ELSE <<z[i]>>) \o Distinct(z, i + 1)
IsZone(v, listed, reach) ==
  LET g == Reciprocal(v)
      zone == IF Len(v) = 1 THEN listed ELSE Distinct(listed, 1)
      d == Iabs(Determinant(v))
      next(i) == IF i = Len(zone) THEN 1 ELSE i + 1
  IN IF Len(v) = 1 THEN zone = <<<<-d>>, <<d>>>>
     ELSE /\ Len(zone) \in {4, 6}
          /\ \A i \in DOMAIN zone : Cross(zone[i], zone[next(i)]) > 0
          /\ FoldLeft(LAMBDA acc, i : acc + Cross(zone[i], zone[next(i)]), 0, [i \in DOMAIN zone |-> i]) = 8 * d * d * d
          /\ \A n, m \in (-reach)..reach : (n = 0 /\ m = 0) \/
                LET c == Combination(g, n, m) IN \A i \in DOMAIN zone : Iabs(Dot(zone[i], c)) <= d * Dot(c, c)
=============================================================================
