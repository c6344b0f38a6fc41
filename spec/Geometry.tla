------------------------------ MODULE Geometry ------------------------------
(* Shapes on integer coordinates: which positions are inside, which are so    *)
(* close to the boundary that the answer is not specified.                    *)
EXTENDS Lattice

\* crossing number rule for the side (p1, p2): is the side crossed by the ray which
\* comes from the left and ends at p?
Crosses(p, p1, p2) ==
  LET dy == p2[2] - p1[2]
      lhs == (p[1] - p1[1]) * dy
      rhs == (p2[1] - p1[1]) * (p[2] - p1[2])
  IN /\ (p1[2] > p[2]) # (p2[2] > p[2])
     /\ IF dy > 0 THEN lhs > rhs ELSE lhs < rhs
OnSide(p, p1, p2) ==
  /\ (p[1] - p1[1]) * (p2[2] - p1[2]) = (p2[1] - p1[1]) * (p[2] - p1[2])
  /\ (p[1] - p1[1]) * (p[1] - p2[1]) <= 0
  /\ (p[2] - p1[2]) * (p[2] - p2[2]) <= 0
Prev(n, i) == IF i = 1 THEN n ELSE i - 1

Inside(sh, p) ==
  CASE sh.kind = "polygon" ->
         LET n == Len(sh.verts) IN
         Cardinality({i \in 1..n : Crosses(p, sh.verts[i], sh.verts[Prev(n, i)])}) % 2 = 1
    [] sh.kind = "line" ->
         /\ VDot(VSub(sh.a, sh.b), VSub(p, sh.b)) >= 0
         /\ VDot(VSub(sh.b, sh.a), VSub(p, sh.a)) >= 0
    [] sh.kind = "box" -> \A i \in 1..3 : sh.lo[i] <= p[i] /\ p[i] <= sh.hi[i]
    [] sh.kind = "circle" -> LET d == VSub(p, sh.c) IN VDot(d, d) < sh.r2
OnBoundary(sh, p) ==
  CASE sh.kind = "polygon" ->
         LET n == Len(sh.verts) IN \E i \in 1..n : OnSide(p, sh.verts[i], sh.verts[Prev(n, i)])
    [] sh.kind = "line" -> p = sh.a \/ p = sh.b
    [] OTHER -> FALSE

\* the corners of the bounding box
Corners(lo, hi) == {<<x, y, z>> : x \in {lo[1], hi[1]}, y \in {lo[2], hi[2]}, z \in {lo[3], hi[3]}}
BoundingVertices(sh) ==
  CASE sh.kind = "polygon" -> {sh.verts[i] : i \in 1..Len(sh.verts)}
    [] sh.kind = "line" -> {sh.a, sh.b}
    [] sh.kind = "box" -> Corners(sh.lo, sh.hi)
    [] sh.kind = "circle" -> Corners(VSub(sh.c, <<sh.h, sh.h, sh.h>>), VAdd(sh.c, <<sh.h, sh.h, sh.h>>))
ValidShape(sh) == sh.kind # "polygon" \/ Len(sh.verts) >= 2

Trunc(n, d) == LET a == Abs(n) \div Abs(d) IN IF (n < 0) = (d < 0) THEN a ELSE 0 - a
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

CeilDiv(n, d) == LET m == IF d > 0 THEN n ELSE 0 - n IN 0 - ((0 - m) \div Abs(d))
FloorDiv(n, d) == LET m == IF d > 0 THEN n ELSE 0 - n IN m \div Abs(d)

\* the range of cells which is built for a shape: the bounding vertices in lattice
\* coordinates, rounded towards zero, plus one cell on each side, and every cell which has
\* a site within these bounds
CellRange(lat, sh) ==
  LET nd == Len(lat.vecs)
      c == {LatticeCoord(lat.vecs, v) : v \in BoundingVertices(sh)}
      d == {LatticeCoord(lat.vecs, VSub(v, VAdd(lat.offset, lat.subs[s].pos))) :
              v \in BoundingVertices(sh), s \in 1..Len(lat.subs)}
      lo == [i \in 1..3 |-> IF i <= nd THEN MinOf({MinOf({Trunc(x.num[i], x.den) : x \in c}) - 1}
                                                  \cup {CeilDiv(x.num[i], x.den) : x \in d}) ELSE 0]
      hi == [i \in 1..3 |-> IF i <= nd THEN MaxOf({MaxOf({Trunc(x.num[i], x.den) : x \in c}) + 1}
                                                  \cup {FloorDiv(x.num[i], x.den) : x \in d}) ELSE 0]
      \* the rounding does not depend on the accuracy of the arithmetic
      low(i) == MinOf({Trunc(x.num[i], x.den) : x \in c}) - 1
      high(i) == MaxOf({Trunc(x.num[i], x.den) : x \in c}) + 1
  IN [lo |-> <<lo[1], lo[2], lo[3]>>, hi |-> <<hi[1], hi[2], hi[3]>>,
      exact |-> /\ \A x \in c : \A i \in 1..nd : Abs(x.num[i]) % Abs(x.den) # 0
                /\ \A x \in d : \A i \in 1..nd :
                     Abs(x.num[i]) % Abs(x.den) = 0 =>
                       LET q == FloorDiv(x.num[i], x.den) IN low(i) <= q - 1 /\ q + 1 <= high(i)]
=============================================================================
