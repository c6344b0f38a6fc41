-------------------------------- MODULE Plots --------------------------------
(* What the plots of a structure show.  A structure:
     [sites |-> <<[x, y, z, sub, value]>>, hops |-> <<<<row, col, id>>>>, bounds |-> <<<<shift, hops>>>>, ...]
   A plot shows circles (of sites in some translation units) and lines (of hoppings within and between
   the units). Order: the axes of the plot, e.g. <<2, 3, 1>> for the yz plane. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Bags

AxisOf(c) == CASE c = "x" -> 1 [] c = "y" -> 2 [] c = "z" -> 3
\* given: <<"y", "z">> or all three; the missing axis is the last one
Order(letters) == LET k == [i \in DOMAIN letters |-> AxisOf(letters[i])]
                  IN IF Len(k) = 3 THEN k ELSE <<k[1], k[2], CHOOSE a \in 1..3 : a \notin {k[1], k[2]}>>
Rotate(p, order) == [i \in 1..3 |-> p[order[i]]]
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Minus(a, b) == [i \in 1..3 |-> a[i] - b[i]]
Zero3 == <<0, 0, 0>>
Plus2(a, b) == <<a[1] + b[1], a[2] + b[2]>>

(* ---- the translation units which are drawn ---- *)
Steps(shifts) == shifts \cup {Minus(Zero3, s) : s \in shifts}
RECURSIVE Level(_, _)
Level(shifts, n) == IF n = 0 THEN {Zero3}       \* those which are reached by n steps and no less
                    ELSE {Plus(c, s) : c \in Level(shifts, n - 1), s \in Steps(shifts)} \ UNION {Level(shifts, k) : k \in 0..(n - 1)}
Units(shifts, n) == UNION {Level(shifts, k) : k \in 0..n}

\* a connection between the units c + s and c by the boundary with the shift s
Joins(bounds, units) == {<<k, c>> : k \in DOMAIN bounds, c \in units}
\* which connections have to be drawn (one of the units is nearer than the last level), and which may be drawn
MustJoin(shift, c, near, all) == (c \in near /\ Plus(c, shift) \in all) \/ (Plus(c, shift) \in near /\ c \in all)
MayJoin(shift, c, all) == c \in all /\ Plus(c, shift) \in all

(* ---- what is drawn ---- *)
Min2(a, b) == IF a < b THEN a ELSE b
At(w, i) == <<w.sites[i + 1].x, w.sites[i + 1].y, w.sites[i + 1].z>>
Twice(p) == [i \in DOMAIN p |-> 2 * p[i]]
FirstOf(p, n) == SubSeq(p, 1, n)
\* a line between two points is the same in both directions
LineOf(w, h, from, to, look) ==
  LET end(i, c) == FirstOf(Twice(Rotate(Plus(At(w, i), c), look.order)), IF look.three THEN 3 ELSE 2)
  IN <<{end(h[1], from), end(h[2], to)}, IF look.hopcolors = 0 THEN 0 ELSE h[3],
       IF look.hopcolors = 0 THEN -1 ELSE Min2(h[3], look.hopcolors - 1)>>
Shown(look, h) == look.only = {} \/ h[3] \in look.ids
LinesOf(w, hops, from, to, look) == {LineOf(w, h, from, to, look) : h \in {h \in ToSet(hops) : look.drawn /\ Shown(look, h)}}

(* ---- plots of a lattice: subs[i] is the position of the i-th sublattice ---- *)
\* those which are not covered by another one at the same place of the plot (one of those at the same height)
Hidden(subs, i, order) == \E j \in DOMAIN subs : FirstOf(Rotate(subs[j], order), 2) = FirstOf(Rotate(subs[i], order), 2) /\ Rotate(subs[j], order)[3] > Rotate(subs[i], order)[3]
Places(subs, order) == {FirstOf(Rotate(subs[i], order), 2) : i \in DOMAIN subs}
\* are these the sublattices which have to be named
AreVisible(subs, order, shown) ==
  /\ \A i \in shown : ~Hidden(subs, i, order)
  /\ \A p \in Places(subs, order) : Cardinality({i \in shown : FirstOf(Rotate(subs[i], order), 2) = p}) = 1
SumOf(seq) == FoldLeft(Plus, Zero3, seq)
Scaled(k, v) == [i \in DOMAIN v |-> k * v[i]]
CellAt(vectors, rel) == SumOf([i \in DOMAIN vectors |-> Scaled(rel[i], vectors[i])])
\* the cells which are reached by the hoppings, in both directions
Neighbors(rels) == (rels \cup {Minus(Zero3, q) : q \in rels}) \ {Zero3}
Side(x, names) == IF x < 0 THEN names[1] ELSE IF x = 0 THEN "center" ELSE names[2]
\* the text is on the outer side
Aligned(v) == <<Side(v[1], <<"right", "left">>), Side(v[2], <<"top", "bottom">>)>>

(* ---- leads: the middle of everything which is drawn, and the line where a lead starts ---- *)
MinOf(S) == CHOOSE v \in S : \A u \in S : v <= u
MaxOf(S) == CHOOSE v \in S : \A u \in S : u <= v
\* four times the middle of the points and their images, with twice the shift
Middle4(points, shift2) ==
  [i \in 1..2 |-> LET all == {2 * p[i] : p \in points} \cup {2 * p[i] + shift2[i] : p \in points} IN MinOf(all) + MaxOf(all)]
\* The line a, b of the given length, a lattice vector of the given norm, the length of the arrow and the width of the shade in tenths.
\* Positions of the arrow in units of 1 / 10 norm, those of the shade and the label in units of 1 / 100 norm
Contact(c) ==
  LET arrow == Scaled(c.sign * c.arrow * c.length, FirstOf(c.vector, 2))
      wide == Scaled(c.shade, arrow)
      corner(p, s) == Plus2(Scaled(100 * c.norm, p), Scaled(s, wide))
      middle == Plus2(c.a, c.b)
  IN [line |-> {Scaled(10 * c.norm, c.a), Scaled(10 * c.norm, c.b)}, start |-> Scaled(5 * c.norm, middle), arrow |-> arrow,
      shade |-> {corner(p, s) : p \in {c.a, c.b}, s \in {-1, 1}},
      around |-> {{corner(c.a, -1), corner(c.a, 1)}, {corner(c.a, 1), corner(c.b, 1)}, {corner(c.b, 1), corner(c.b, -1)}, {corner(c.b, -1), corner(c.a, -1)}},
      label |-> Plus2(Scaled(50 * c.norm, middle), Scaled(2, arrow))]
===============================================================================
