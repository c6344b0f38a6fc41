------------------------------ MODULE TracePlots ------------------------------
EXTENDS Plots, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st       \* the structure
Ev(t, i) == Traces[t].ev[i]

FullName(n) == IF n[2] = "" THEN n[1] ELSE n[1] \o "|" \o n[2]
IdsOf(names, what) == {names[k][3] : k \in {k \in DOMAIN names : names[k][1] = what \/ FullName(names[k]) = what}}
World(e) == [sites |-> [i \in DOMAIN e.sites |-> [x |-> e.sites[i][1], y |-> e.sites[i][2], z |-> e.sites[i][3], sub |-> e.sites[i][4], value |-> e.sites[i][5]]],
             hops |-> e.hops, bounds |-> e.bounds, names |-> e.names, hopnames |-> e.hopnames]
Look(w, e) == [order |-> Order(e.letters), three |-> e.three, depth |-> e.depth, colors |-> e.colors, hopcolors |-> e.hopcolors, drawn |-> TRUE,
               only |-> ToSet(e.only), ids |-> UNION {IdsOf(w.hopnames, q) : q \in ToSet(e.only)}]

(* ---- circles ---- *)
Rank(v, S) == Cardinality({u \in S : u < v})
\* by: "value" or "sub"; radius(i)
Circle(w, i, c, look, by, radius) ==
  LET p == Twice(Rotate(Plus(At(w, i - 1), c), look.order))
      v == IF by = "sub" THEN w.sites[i].sub ELSE w.sites[i].value
      nth == IF by = "sub" THEN v ELSE Rank(v, {w.sites[k].value : k \in DOMAIN w.sites})
  IN <<IF look.three THEN <<p[1], p[2], p[1] * look.depth[1] + p[2] * look.depth[2] + p[3] * look.depth[3]>> ELSE FirstOf(p, 2), v,
       IF look.colors = 0 THEN -1 ELSE Min2(nth, look.colors - 1), radius[i]>>
Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Count(a, a[i]) = Count(b, a[i])
\* is this how all sites of a unit are drawn: from the bottom to the top in two dimensions
IsUnit(w, drawn, c, look, by, radius) ==
  LET n == Len(w.sites)
      item(i) == Circle(w, i, c, look, by, radius)
      height(i) == At(w, i - 1)[look.order[3]]
      heights == {height(i) : i \in 1..n}
      below(h) == Cardinality({i \in 1..n : height(i) < h})
      those(h) == SetToSeq({i \in 1..n : height(i) = h})
  IN /\ Len(drawn) = n
     /\ IF look.three THEN SameBag(drawn, [i \in 1..n |-> item(i)]) /\ \A i \in 1..(n - 1) : drawn[i][1][3] >= drawn[i + 1][1][3]
        ELSE \A h \in heights : LET q == those(h) IN SameBag(SubSeq(drawn, below(h) + 1, below(h) + Len(q)), [k \in DOMAIN q |-> item(q[k])])
\* each unit is drawn once
AreUnits(w, drawn, units, look, by, radius) ==
  /\ Len(drawn) = Cardinality(units)
  /\ \A c \in units : Cardinality({k \in DOMAIN drawn : IsUnit(w, drawn[k], c, look, by, radius)}) =
                      Cardinality({d \in units : \A i \in DOMAIN w.sites : Circle(w, i, c, look, by, radius) = Circle(w, i, d, look, by, radius)})
NoRadius(w) == [i \in DOMAIN w.sites |-> 0]
Values(w) == {w.sites[i].value : i \in DOMAIN w.sites}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
MapRadius(w, e) == [i \in DOMAIN w.sites |-> IF Cardinality(Values(w)) = 1 THEN 0 ELSE e.delta * (w.sites[i].value - SetMin(Values(w)))]

(* ---- lines ---- *)
Drawn(lines) == UNION {{<<{q[1], q[2]}, q[3], q[4]>> : q \in ToSet(lines[k])} : k \in DOMAIN lines}
Shifts(w) == {w.bounds[k][1] : k \in DOMAIN w.bounds}
WithUnits(w, P, look, inner) ==
  LET all == Units(Shifts(w), P)
      near == IF P = 0 THEN {} ELSE Units(Shifts(w), P - 1)
      cells == UNION {LinesOf(w, w.hops, c, c, look) : c \in (IF inner THEN all ELSE all \ {Zero3})}
      join(ok(_, _)) == UNION {LET s == w.bounds[q[1]][1] IN IF ok(s, q[2]) THEN LinesOf(w, w.bounds[q[1]][2], Plus(q[2], s), q[2], look) ELSE {} :
                               q \in Joins(w.bounds, all)}
  IN [must |-> cells \cup (IF P = 0 THEN {} ELSE join(LAMBDA s, c : MustJoin(s, c, near, all))),
      may |-> cells \cup join(LAMBDA s, c : MayJoin(s, c, all)), units |-> IF inner THEN all ELSE all \ {Zero3}]
Times(n, s) == [i \in 1..3 |-> n * s[i]]
LeadLines(w, k, length, look) ==
  LET s == w.bounds[k + 1][1]
  IN UNION {LinesOf(w, w.hops, Times(i, s), Times(i, s), look) \cup LinesOf(w, w.bounds[k + 1][2], Times(i, s), Times(i - 1, s), look) : i \in 0..(length - 1)}
LeadUnits(w, k, length) == [i \in 1..length |-> Times(i - 1, w.bounds[k + 1][1])]

AxisName(e) == <<e.letters[1] \o " (nm)", e.letters[2] \o " (nm)">>
StructureMismatch(w, e, look, by, radius, x) ==
  CASE ~AreUnits(w, e.obs.circles, x.units, look, by, radius) -> "circles"
    [] ~(x.must \subseteq Drawn(e.obs.lines)) -> "missing lines"
    [] ~(Drawn(e.obs.lines) \subseteq x.may) -> "extra lines"
    [] e.op \in {"structure", "map", "lattice"} /\ e.obs.labels # AxisName(e) -> "names of the axes"
    [] OTHER -> ""
\* the middle of the sites of the lead and of those which are half of its length further than its end, as they are drawn
LeadLabel(w, k, length, look) ==
  <<"lead " \o ToString(k), Middle4({Rotate(At(w, i - 1), look.order) : i \in DOMAIN w.sites}, Rotate(Times(3 * length, w.bounds[k + 1][1]), look.order))>>
LeadsMismatch(w, e, look, x, leads) ==
  LET start == Cardinality(x.units)
      units(j) == LeadUnits(w, leads[j], e.length)
      lines == x.may \cup UNION {LeadLines(w, leads[j], e.length, look) : j \in DOMAIN leads}
      must == x.must \cup UNION {LeadLines(w, leads[j], e.length, look) : j \in DOMAIN leads}
      c == e.obs.circles
  IN CASE Len(c) # start + Len(leads) * e.length -> "number of units"
       [] x.units # {} /\ ~AreUnits(w, SubSeq(c, 1, start), x.units, look, "sub", NoRadius(w)) -> "circles of the system"
       [] \E j \in DOMAIN leads, i \in 1..e.length : ~IsUnit(w, c[start + (j - 1) * e.length + i], units(j)[i], look, "sub", NoRadius(w)) -> "circles of the lead"
       [] ~(must \subseteq Drawn(e.obs.lines)) -> "missing lines"
       [] ~(Drawn(e.obs.lines) \subseteq lines) -> "extra lines"
       [] e.obs.labels # AxisName(e) -> "names of the axes"
       [] ~SameBag(e.obs.notes, [j \in DOMAIN leads |-> LeadLabel(w, leads[j], e.length, look)]) -> "names of the leads"
       [] OTHER -> ""
Edges(p) == {{p[i], p[(i % Len(p)) + 1]} : i \in DOMAIN p}
ContactMismatch(e) ==
  LET c == Contact(e)  o == e.obs
  IN CASE Len(o.line) # 2 \/ ToSet(o.line) # c.line -> "line of the contact"
       [] o.start # c.start \/ o.arrow # c.arrow -> "arrow of the contact"
       [] Len(o.shade) # 4 \/ Edges(o.shade) # c.around -> "shade of the contact"
       [] o.label # <<"$" \o (IF e.sign < 0 THEN "-" ELSE "") \o "a_" \o ToString(e.axis + 1) \o "$", c.label>> -> "label of the contact"
       [] OTHER -> ""
HoppingsMismatch(w, e, look) ==
  LET hops == IF e.of < 0 THEN w.hops ELSE w.bounds[e.of + 1][2]
      off == e.offset
      from == IF e.boundary # <<>> /\ e.sign > 0 THEN Plus(off, e.boundary) ELSE off
      to == IF e.boundary # <<>> /\ e.sign < 0 THEN Minus(off, e.boundary) ELSE off
      shown == SelectSeq(hops, LAMBDA h : Shown(look, h))
      lines == IF e.obs.lines = <<>> THEN <<>> ELSE e.obs.lines[1]
  IN CASE ~e.obs.kept -> "the given hoppings have changed"
       [] Drawn(e.obs.lines) # LinesOf(w, hops, from, to, look) -> "lines"
       [] Len(lines) # Len(shown) -> "number of lines"
       [] OTHER -> ""

(* ---- annotations ---- *)
Mid(a, b) == <<a[1] + b[1], a[2] + b[2]>>
NameOf(w, id) == LET k == CHOOSE k \in DOMAIN w.hopnames : w.hopnames[k][3] = id IN FullName(w.hopnames[k])
Notes(w) == [k \in DOMAIN w.hops |-> <<NameOf(w, w.hops[k][3]), Mid(At(w, w.hops[k][1]), At(w, w.hops[k][2]))>>]
BoundNotes(w, b, sign) == [k \in DOMAIN b[2] |-> <<NameOf(w, b[2][k][3]), Mid(Plus(At(w, b[2][k][1]), Times(sign, b[1])), At(w, b[2][k][2]))>>]
AllNotes(w) == Notes(w) \o FlattenSeq([k \in DOMAIN w.bounds |-> BoundNotes(w, w.bounds[k], 1) \o BoundNotes(w, w.bounds[k], -1)])

(* ---- plots of results ---- *)
Iota(n) == [i \in 1..n |-> i - 1]
Groups(v) == {q \in (DOMAIN v) \X (DOMAIN v) : q[1] < q[2] /\ v[q[1]] = v[q[2]] /\ (q[1] = 1 \/ v[q[1] - 1] # v[q[1]]) /\ (q[2] = Len(v) \/ v[q[2] + 1] # v[q[2]])}
LevelsMismatch(e) ==
  LET o == e.obs
      n == Len(e.energy)
      points == [i \in 1..n |-> <<i - 1, e.energy[i]>>]
      heat == e.heat /\ \E i \in 1..n : e.probability[i] # 0
      items == [i \in 1..n |-> <<points[i], e.probability[i], e.probability[i]>>]
      lines == {<<points[g[1]], points[g[2]]>> : g \in Groups(e.energy)}
  IN CASE ~heat /\ o.points # points -> "levels"
       [] heat /\ (Len(o.points) # n \/ Len(o.color) # n \/ Len(o.size) # n) -> "number of levels"
       [] heat /\ ~SameBag([i \in 1..n |-> <<o.points[i], o.color[i], o.size[i]>>], items) -> "levels and their probabilities"
       [] heat /\ \E i \in 1..(n - 1) : o.color[i] > o.color[i + 1] -> "order of the levels"
       [] heat /\ o.top # (CHOOSE p \in ToSet(e.probability) : \A q \in ToSet(e.probability) : q <= p) -> "largest probability"
       [] (IF e.mark THEN ToSet(o.lines) # lines ELSE o.lines # <<>>) -> "degenerate levels"
       [] (IF e.numbers THEN ~SameBag(o.notes, [i \in 1..n |-> <<i - 1, points[i]>>]) ELSE o.notes # <<>>) -> "numbers of the levels"
       [] OTHER -> ""
Iabs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x = 0 THEN 0 ELSE IF x > 0 THEN 1 ELSE -1
Length(a, b) == IF Len(a) = 1 THEN Iabs(b[1] - a[1]) ELSE Iabs(b[1] - a[1]) + Iabs(b[2] - a[2])
RECURSIVE Upto(_, _)
Upto(p, i) == IF i = 1 THEN 0 ELSE Upto(p, i - 1) + Length(p[i - 1], p[i])
BandsMismatch(e) ==
  LET p == e.vectors
      n == 1 + Upto(p, Len(p))
      axis == IF p[1][1] # p[2][1] THEN 1 ELSE 2
      k == IF Len(p) = 2 THEN [i \in 1..n |-> p[1][axis] + (i - 1) * Sgn(p[2][axis] - p[1][axis])] ELSE Iota(n)
      at == [i \in DOMAIN p |-> k[Upto(p, i) + 1]]
  IN CASE e.obs.n # n \/ e.obs.k # k -> "wave vectors"
       [] e.obs.energy # SubSeq(e.energy, 1, n) -> "bands"
       [] e.obs.ticks # at \/ e.obs.marks # at -> "marked points"
       [] e.labels # <<>> /\ e.obs.labels # e.labels -> "names of the points"
       [] OTHER -> ""
Nearest(v, at) == CHOOSE i \in DOMAIN v : (\A j \in DOMAIN v : Iabs(v[i] - at) <= Iabs(v[j] - at)) /\ \A j \in 1..(i - 1) : Iabs(v[i] - at) < Iabs(v[j] - at)
SweepMismatch(e) ==
  LET o == e.obs
      nx == Len(e.x)  ny == Len(e.y)
      ix == Nearest(e.x, e.at)  iy == Nearest(e.y, e.at)
  IN CASE e.slice = "" -> IF o.x = e.x /\ o.y = e.y /\ o.data = [j \in 1..ny |-> [i \in 1..nx |-> e.data[i][j]]] /\ o.labels = <<"X (u)", "Y (v)">> THEN "" ELSE "map of the sweep"
       [] e.slice = "x" -> IF o.x = e.y /\ o.data = e.data[ix] /\ o.title = "T, X = " \o ToString(e.x[ix]) \o " u" /\ o.labels = <<"Y (v)", "D">> THEN "" ELSE "slice of the sweep"
       [] e.slice = "y" -> IF o.x = e.x /\ o.data = [i \in 1..nx |-> e.data[i][iy]] /\ o.title = "T, Y = " \o ToString(e.y[iy]) \o " v" /\ o.labels = <<"X (u)", "D">> THEN "" ELSE "slice of the sweep"
Least(v) == SetMin(ToSet(v))
Most(v) == CHOOSE x \in ToSet(v) : \A y \in ToSet(v) : y <= x

(* ---- lattices ---- *)
Text(e, rel) == "[" \o ToString(rel[1]) \o (IF e.dim > 1 THEN ", " \o ToString(rel[2]) ELSE "") \o (IF e.dim > 2 THEN ", " \o ToString(rel[3]) ELSE "") \o "]"
\* the numbered arrows of vectors (those which are not seen from the top have none), in units of 1 / scale
ArrowsMismatch(o, vectors, start, scale, half, name) ==
  LET seen == SelectSeq([i \in DOMAIN vectors |-> i], LAMBDA i : FirstOf(vectors[i], 2) # <<0, 0>>)
      arrow(i) == start \o Scaled(scale, FirstOf(vectors[i], 2))
      number(i) == <<name, i, Mid(start, Scaled(half, FirstOf(vectors[i], 2)))>>
  IN CASE o.arrows # [k \in DOMAIN seen |-> arrow(seen[k])] -> "arrows of the vectors"
       [] o.vectors # [k \in DOMAIN seen |-> number(seen[k])] -> "numbers of the vectors"
       [] OTHER -> ""
LatticeMismatch(e) ==
  LET w == World(e)
      look == [order |-> Order(e.letters), three |-> FALSE, depth |-> Zero3, colors |-> 0, hopcolors |-> 0, drawn |-> TRUE, only |-> {}, ids |-> {}]
      n == Len(e.sites)
      scale == 20 * n
      subs == [i \in 1..n |-> FirstOf(e.sites[i], 3)]
      shown == {i \in 1..n : \E k \in DOMAIN e.names : e.names[k][3] = i - 1 /\ \E q \in ToSet(e.obs.names) : q[1] = e.names[k][1]}
      place(i) == FirstOf(Rotate(subs[i], look.order), 2)
      named == {<<e.names[k][1], Scaled(scale, place(e.names[k][3] + 1))>> : k \in {k \in DOMAIN e.names : e.names[k][3] + 1 \in shown}}
      sum == FirstOf(Rotate(SumOf(subs), look.order), 2)
      rotated == [i \in DOMAIN e.vectors |-> Rotate(e.vectors[i], look.order)]
      start == IF e.where = "center" THEN Scaled(20, sum) ELSE Scaled(scale, e.position)
      rels == Neighbors({e.terms[k][2] : k \in DOMAIN e.terms})
      cell(rel) == LET at == FirstOf(Rotate(CellAt(e.vectors, rel), look.order), 2)
                   IN <<Text(e, rel), Scaled(21, Mid(sum, Scaled(n, at))), Aligned(at)>>
      cells == {cell(rel) : rel \in rels}
      must == {cell(rel) : rel \in {rel \in rels : FirstOf(rel, 2) # <<0, 0>>}}
  IN CASE StructureMismatch(w, e, look, "sub", NoRadius(w), WithUnits(w, e.periods, look, TRUE)) # "" ->
            StructureMismatch(w, e, look, "sub", NoRadius(w), WithUnits(w, e.periods, look, TRUE))
       [] ~AreVisible(subs, look.order, shown) \/ ToSet(e.obs.names) # named \/ Len(e.obs.names) # Cardinality(named) -> "names of the sublattices"
       [] e.where = "none" /\ (e.obs.arrows # <<>> \/ e.obs.vectors # <<>>) -> "vectors without a position"
       [] e.where # "none" /\ ArrowsMismatch(e.obs, rotated, start, scale, scale \div 2, "a") # "" -> ArrowsMismatch(e.obs, rotated, start, scale, scale \div 2, "a")
       [] ~(must \subseteq ToSet(e.obs.cells)) -> "neighboring cells without a name"
       [] ~(ToSet(e.obs.cells) \subseteq cells) -> "names of the neighboring cells"
       [] OTHER -> ""
\* reciprocal vectors times the volume of the cell over two pi
Reciprocal(e) == LET a == e.vectors[1]  b == e.vectors[2] IN <<<<b[2], -b[1], 0>>, <<-a[2], a[1], 0>>>>
Near(a, b, tol) == Iabs(a - b) <= tol
ZoneMismatch(e) ==
  LET o == e.obs
      labels == e.decorate \/ e.dim = 1
      values == IF e.dim = 1 THEN {<<v[2], 0>> : v \in ToSet(o.zone)} ELSE ToSet(o.zone)
      label(v, c) == IF e.dim = 1 THEN Near(c[1][1], v[1], 2) /\ Near(c[2][1], v[1], Iabs(v[1]) \div 16 + 9)
                     ELSE /\ Near(100 * c[1][1], 105 * v[1], 150) /\ Near(100 * c[1][2], 105 * v[2], 150)
                          /\ \A i \in 1..2 : Near(c[2][i], v[i], Iabs(v[i]) \div 16 + 9)
                          /\ c[3] = Aligned(v)
  IN CASE o.drawn # o.zone -> "zone"
       [] e.dim = 1 /\ o.zone # <<<<-50, 0>>, <<50, 0>>>> -> "zone"
       [] e.dim = 1 /\ Len(o.cells) # 3 -> "ticks"
       [] e.dim = 1 /\ (o.cells[2][1][1] # 0 \/ \E c \in ToSet(o.cells) : ~label(c[1], c) \/ ~Near(c[1][1] * e.det, 31416 * Sgn(c[1][1]), e.det)) -> "names of the ticks"
       [] e.dim = 1 /\ ({Sgn(c[1][1]) : c \in ToSet(o.cells)} # {-1, 0, 1}) -> "ticks"
       [] e.dim = 2 /\ e.decorate /\ ArrowsMismatch(o, Reciprocal(e), <<0, 0>>, 1, 1, "b") # "" -> ArrowsMismatch(o, Reciprocal(e), <<0, 0>>, 1, 1, "b")
       [] e.dim = 2 /\ Len(o.cells) # (IF e.decorate THEN Len(o.zone) ELSE 0) -> "number of vertices"
       [] e.dim = 2 /\ e.decorate /\ \E v \in ToSet(o.zone) : ~\E c \in ToSet(o.cells) : label(v, c) -> "names of the vertices"
       [] e.dim = 2 /\ ~e.decorate /\ (o.arrows # <<>> \/ o.vectors # <<>>) -> "decorated"
       [] OTHER -> ""
SquareLength(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
RadiusMismatch(e) ==
  LET subs == [i \in DOMAIN e.sites |-> FirstOf(e.sites[i], 3)]
      apart == {SquareLength(Minus(subs[i], subs[j])) : i, j \in DOMAIN subs} \ {0}
      spacing == IF apart # {} THEN SetMin(apart) ELSE SetMin({SquareLength(e.vectors[i]) : i \in DOMAIN e.vectors})
  IN IF e.obs.positive /\ e.obs.square <= 100 * e.part * e.part * spacing THEN "" ELSE "radius of the sites"

Mismatch(w, e) ==
  IF e.op = "contact" /\ (e.dim # 2 \/ e.vertices # 2) THEN IF e.res = "ok" THEN "not a contact line in two dimensions" ELSE ""
  ELSE IF e.res # "ok" THEN "the plot fails"
  ELSE CASE e.op = "world" -> ""
    [] e.op = "sites" -> LET look == Look(w, e) IN
         IF Len(e.obs.circles) = 1 /\ IsUnit(w, e.obs.circles[1], e.offset, look, IF e.by = "value" THEN "value" ELSE "sub", IF e.radius = <<>> THEN NoRadius(w) ELSE e.radius) THEN "" ELSE "circles"
    [] e.op = "hoppings" -> HoppingsMismatch(w, e, Look(w, e))
    [] e.op \in {"periodic", "structure"} -> LET look == Look(w, e) IN StructureMismatch(w, e, look, "sub", NoRadius(w), WithUnits(w, e.periods, look, e.op = "structure"))
    [] e.op = "map" -> LET look == [Look(w, e) EXCEPT !.colors = 0] IN StructureMismatch(w, e, look, "value", MapRadius(w, e), WithUnits(w, e.periods, look, TRUE))
    [] e.op = "lead" -> LET look == Look(w, e) IN LeadsMismatch(w, e, look, [units |-> {}, may |-> {}, must |-> {}], <<e.k>>)
    [] e.op = "model" -> LET look == Look(w, e) IN LeadsMismatch(w, e, look, WithUnits(w, e.periods, look, TRUE), e.leads)
    [] e.op = "contact" -> ContactMismatch(e)
    [] e.op = "lattice" -> LatticeMismatch(e)
    [] e.op = "vectors" -> ArrowsMismatch(e.obs, e.vectors, Scaled(2, e.position), 2 * e.scale, e.scale, "a")
    [] e.op = "zone" -> ZoneMismatch(e)
    [] e.op = "radius" -> RadiusMismatch(e)
    [] e.op = "indices" -> IF e.obs = [i \in DOMAIN w.sites |-> <<i - 1, FirstOf(Twice(At(w, i - 1)), 2)>>] THEN "" ELSE "indices of the sites"
    [] e.op = "names" -> IF SameBag(e.obs, AllNotes(w)) THEN "" ELSE "names of the hoppings"
    [] e.op = "levels" -> LevelsMismatch(e)
    [] e.op = "bands" -> BandsMismatch(e)
    [] e.op = "series" -> IF e.obs.x = e.x /\ e.obs.y = e.data /\ e.obs.lim = <<Least(e.x), Most(e.x)>> /\ e.obs.labels = <<"V", "D">> THEN "" ELSE "series"
    [] e.op = "sweep" -> SweepMismatch(e)
    [] e.op = "path" -> IF e.obs = [i \in 1..(Len(e.points) - 1) |-> <<e.points[i][1], e.points[i][2], e.points[i + 1][1] - e.points[i][1], e.points[i + 1][2] - e.points[i][2]>>] THEN "" ELSE "arrows of the path"
    [] e.op = "spatial" -> IF e.obs = [i \in DOMAIN w.sites |-> <<w.sites[i].x, w.sites[i].y, w.sites[i].value>>] THEN "" ELSE "map"

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == Mismatch(st, e)
     IN IF why = "" THEN
           /\ st' = (IF e.op = "world" THEN World(e) ELSE st) /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
