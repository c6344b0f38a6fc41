------------------------------- MODULE MCShapes -------------------------------
(* Design check: the vertices which a composition takes over enclose all of its points, wherever its
   parts are moved; and the zone limited by the combinations of the given reciprocal vectors is the
   Brillouin zone only if these are reduced. *)
EXTENDS Shapes, TLC
CONSTANTS Size, Faulty

VARIABLES a, b, how, by, g1, g2
vars == <<a, b, how, by, g1, g2>>

Intervals == {r \in (0..2) \X (0..2) : r[1] < r[2]}
Boxes == {<<x, y>> : x \in Intervals, y \in Intervals}
Corners(r) == <<<<r[1][1], r[2][1], 0>>, <<r[1][2], r[2][1], 0>>, <<r[1][1], r[2][2], 0>>, <<r[1][2], r[2][2], 0>>>>
Moved(vs, v) == [i \in DOMAIN vs |-> <<vs[i][1] + v[1], vs[i][2] + v[2], 0>>]
Hows == {"and", "or", "xor", "sub"}
Vectors == {v \in ((-Size)..Size) \X ((-Size)..Size) : v # <<0, 0>>}

Init == /\ a \in Boxes /\ b \in Boxes /\ how \in Hows /\ by = <<0, 0>>
        /\ g1 = <<1, 0>> /\ g2 = <<0, 1>>
Shift == by = <<0, 0>> /\ g1 = <<1, 0>> /\ by' \in (-1..1) \X {0, 1} /\ UNCHANGED <<a, b, how, g1, g2>>
\* another basis of the same plane
Skew == /\ a = <<<<0, 1>>, <<0, 1>>>> /\ b = a /\ how = "or" /\ by = <<0, 0>>
        /\ \E v \in Vectors, w \in Vectors : Cross(v, w) # 0 /\ g1' = v /\ g2' = w
        /\ UNCHANGED <<a, b, how, by>>
Next == Shift \/ (g1 = <<1, 0>> /\ g2 = <<0, 1>> /\ Skew)
Spec == Init /\ [][Next]_vars

BoxOf(r) == [kind |-> "box", ranges |-> r]
TheShape == [kind |-> "shift", of |-> [kind |-> "compose", how |-> how, a |-> BoxOf(a), b |-> BoxOf(b)], by |-> <<by[1], by[2], 0>>]
TheVertices == Moved(CASE "first" \in Faulty -> Corners(a) [] OTHER -> Corners(a) \o Corners(b), IF "unmoved" \in Faulty THEN <<0, 0>> ELSE by)
Enclosing == \A x, y \in -1..3 :
   LET p == <<x, y, 0>> IN Covers(TheShape, p) => Enclosed(TheVertices, p)
Wide == \A x, y \in -2..7 :
   LET big(r) == [i \in 1..2 |-> <<2 * r[i][1], 2 * r[i][2]>>]
       s == [kind |-> "shift", of |-> [kind |-> "compose", how |-> how, a |-> BoxOf(big(a)), b |-> BoxOf(big(b))], by |-> <<2 * by[1], 2 * by[2], 0>>]
       vs == [i \in DOMAIN TheVertices |-> <<2 * TheVertices[i][1], 2 * TheVertices[i][2], 0>>]
   IN Covers(s, <<x, y, 0>>) => Enclosed(vs, <<x, y, 0>>)

\* ---- reduction of a basis (Lagrange): as in brillouin_zone
Norm2(v) == Dot(v, v)
Nearest(n, d) == LET q == (2 * n + d) \div (2 * d) IN q         \* d > 0
RECURSIVE Reduce(_, _)
Reduce(v, w) ==
  IF Norm2(w) < Norm2(v) THEN Reduce(w, v)
  ELSE LET n == Nearest(Dot(v, w), Norm2(v))
           c == <<w[1] - n * v[1], w[2] - n * v[2]>>
       IN IF Norm2(c) >= Norm2(v) THEN <<v, c>> ELSE Reduce(c, v)
\* a point is in the zone when it is not closer to another lattice point; that only has to be tried with
\* the combinations -1, 0, 1 of the reduced vectors
Closer(p, g) == 2 * Dot(p, g) > 12 * Norm2(g)          \* p in twelfths
NearBasis(bs, p) == \A n, m \in -1..1 : (n = 0 /\ m = 0) \/ ~Closer(p, <<n * bs[1][1] + m * bs[2][1], n * bs[1][2] + m * bs[2][2]>>)
NearAll(p) == \A n, m \in -4..4 : (n = 0 /\ m = 0) \/ ~Closer(p, <<n * g1[1] + m * g2[1], n * g1[2] + m * g2[2]>>)
Zone == LET bs == IF "given" \in Faulty THEN <<g1, g2>> ELSE Reduce(g1, g2)
        IN \A x, y \in {-13, -7, -6, -5, -1, 0, 2, 6, 9, 14} : NearBasis(bs, <<x, y>>) = NearAll(<<x, y>>)
SameLattice == LET bs == Reduce(g1, g2) IN Iabs(Cross(bs[1], bs[2])) = Iabs(Cross(g1, g2))
Inv == Enclosing /\ Wide /\ Zone /\ SameLattice
=============================================================================
