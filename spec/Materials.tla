------------------------------ MODULE Materials ------------------------------
(* The prebuilt materials: their atoms and bonds, the shape with armchair edges and the effects of fields and strain.
   A lattice: [vectors |-> <<<<x, y>>, ...>>, subs |-> <<[name, at |-> <<x, y, z>>, energy, family]>>,
               hops |-> <<[rel |-> <<n1, n2>>, from, to (numbers of subs), name, energy]>>, min]
   Honeycombs are measured in half unit cells along x and in half bonds along y: then the square of the length of
   (x, y) is (3 x^2 + y^2) / 4 in square bonds. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
Minus(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Times(k, a) == [i \in DOMAIN a |-> k * a[i]]
Iabs(x) == IF x < 0 THEN -x ELSE x
Square(x) == x * x
Bond2(v) == 3 * v[1] * v[1] + v[2] * v[2]          \* four times the square of the length in the plane

(* ---- bonds ---- *)
Rels(l, n) == {<<i, j>> : i \in (-n)..n, j \in (IF Len(l.vectors) = 1 THEN {0} ELSE (-n)..n)}
Shift(l, rel) == LET a == Times(rel[1], l.vectors[1]) IN IF Len(l.vectors) = 1 THEN a ELSE Plus(a, Times(rel[2], l.vectors[2]))
\* from the site i of this cell to the site j of the cell rel
Vector(l, i, j, rel) == Plus(Minus(l.subs[j].at, l.subs[i].at), Shift(l, rel) \o <<0>>)
\* all bonds of a family in both directions: <<i, j, rel>>
BondsOf(l, P(_)) == LET mine == {k \in DOMAIN l.hops : P(l.hops[k])}
                    IN {<<l.hops[k].from, l.hops[k].to, l.hops[k].rel>> : k \in mine} \cup {<<l.hops[k].to, l.hops[k].from, Times(-1, l.hops[k].rel)>> : k \in mine}
PairsWhere(l, n, P(_, _, _)) == {q \in (DOMAIN l.subs) \X (DOMAIN l.subs) \X Rels(l, n) : (q[1] # q[2] \/ q[3] # <<0, 0>>) /\ P(q[1], q[2], Vector(l, q[1], q[2], q[3]))}
\* no bond is there twice
Unique(l) == \A a, b \in DOMAIN l.hops : a # b => LET h == l.hops[a]  g == l.hops[b]
             IN <<h.from, h.to, h.rel>> # <<g.from, g.to, g.rel>> /\ <<h.from, h.to, h.rel>> # <<g.to, g.from, Times(-1, g.rel)>>
\* the family consists of all pairs at this distance in one layer
Shell(l, P(_), d) == BondsOf(l, P) = PairsWhere(l, 3, LAMBDA i, j, v : v[3] = 0 /\ Bond2(v) = d)
Opposite(l, P(_)) == \A q \in BondsOf(l, P) : l.subs[q[1]].family # l.subs[q[2]].family
Degree(l, P(_), i) == Cardinality({q \in BondsOf(l, P) : q[1] = i})
\* a site of another layer is right over or under this one
Dimer(l, i) == \E j \in DOMAIN l.subs, rel \in Rels(l, 2) : LET v == Vector(l, i, j, rel) IN v[3] # 0 /\ Bond2(v) = 0
Interlayer(l, d, P(_, _)) == PairsWhere(l, 3, LAMBDA i, j, v : v[3] # 0 /\ Bond2(v) = d /\ P(Dimer(l, i), Dimer(l, j)))

(* ---- matrices with elements p + q sqrt(3), given as <<p, q>> ---- *)
Mul(a, b) == <<a[1] * b[1] + 3 * a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Add3(a, b, c) == <<a[1] + b[1] + c[1], a[2] + b[2] + c[2]>>
Product(m, n) == [i \in 1..3 |-> [j \in 1..3 |-> Add3(Mul(m[i][1], n[1][j]), Mul(m[i][2], n[2][j]), Mul(m[i][3], n[3][j]))]]
Flip(m) == [i \in 1..3 |-> [j \in 1..3 |-> m[j][i]]]
\* twice the rotation of the orbitals (z2; xy, x2-y2) by a third of a turn in the direction s
Turn(s) == << << <<2, 0>>, <<0, 0>>, <<0, 0>> >>, << <<0, 0>>, <<-1, 0>>, <<0, -s>> >>, << <<0, 0>>, <<0, s>>, <<-1, 0>> >> >>
\* four times the matrix of the bond which is turned
Turned(m, s) == Product(Product(Turn(s), m), Flip(Turn(s)))
Whole(m) == [i \in 1..3 |-> [j \in 1..3 |-> <<m[i][j], 0>>]]
Fourfold(m) == [i \in 1..3 |-> [j \in 1..3 |-> <<4 * m[i][j][1], 4 * m[i][j][2]>>]]

(* ---- a hexagon of a honeycomb ---- *)
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Next6(i) == IF i = 6 THEN 1 ELSE i + 1
Inside(corners, p) == \/ \A i \in 1..6 : Cross(corners[i], corners[Next6(i)], p) > 0
                      \/ \A i \in 1..6 : Cross(corners[i], corners[Next6(i)], p) < 0
\* All lengths are doubled. Sites of the honeycomb (A at <<0, -1>>, B at <<0, 1>>, vectors <<2, 0>> and <<1, 3>>) moved by the offset
Sites(corners, offset, n) == {p \in {<<2 * (2 * i + j) + offset[1], 2 * (3 * j + s) + offset[2]>> : i, j \in (-n)..n, s \in {-1, 1}} : Inside(corners, p)}
IsA(p, offset) == (((p[2] - offset[2]) \div 2) + 1) % 3 = 0
Bonded(p, offset) == LET s == IF IsA(p, offset) THEN 1 ELSE -1 IN {<<p[1], p[2] + 4 * s>>, <<p[1] + 2, p[2] - 2 * s>>, <<p[1] - 2, p[2] - 2 * s>>}
Coordination(S, p, offset) == Cardinality(Bonded(p, offset) \cap S)
\* armchair: no dangling sites, and those of the edge are bonded to each other (not the lonely ones of a zigzag edge)
Armchair(S, offset) == LET edge == {p \in S : Coordination(S, p, offset) = 2}
                       IN /\ S # {} /\ \A p \in S : Coordination(S, p, offset) >= 2
                          /\ \A p \in edge : Bonded(p, offset) \cap edge # {}
\* the corners for n atoms along a side
Corners(n) == LET w == 3 * n - 3 IN <<<<0, 2 * w>>, <<w, w>>, <<w, -w>>, <<0, -2 * w>>, <<-w, -w>>, <<-w, w>>>>

(* ---- magnetic field: the phase of a step from a to b (twice, in units of the field) and the area of a loop (twice) ---- *)
Phase2(a, b) == (a[2] + b[2]) * (a[1] - b[1])
Area2(a, b) == a[1] * b[2] - b[1] * a[2]
==============================================================================
