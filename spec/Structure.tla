----------------------------- MODULE Structure -----------------------------
(* From the description of a model to its finite system: which sites exist,  *)
(* where they are, which hoppings connect them, which ones wrap around the   *)
(* periodic boundaries, and what every modifier and generator gets to see.   *)
(*                                                                           *)
(* A site is a tuple: <<cell1, cell2, cell3, sublattice>> for lattice sites, *)
(* with one more element for every generator which made it out of another.   *)
EXTENDS Geometry, SequencesExt

NoShape == [kind |-> "none"]
NoSym == <<-1, -1, -1>>          \* cells in the period of each direction, -1: not periodic
NewModel(lat) ==
  [lat |-> lat, base |-> lat.offset, prim |-> <<1, 1, 1>>, shape |-> NoShape, sym |-> NoSym,
   smods |-> <<>>, omods |-> <<>>, hmods |-> <<>>, leads |-> <<>>, k |-> Zero3]
\* everything on which the structure of the system depends
StructKey(m) == <<m.lat, m.prim, m.shape, m.sym, m.smods, m.leads>>

\* ------------------------------------------------------- names and energies
Generators(m, op) == {i \in 1..Len(m.smods) : m.smods[i].op = op}
IsGenerator(mod) == mod.op \in {"site_gen", "hop_gen"}
OriginalNames(lat) == {lat.subs[i].orig : i \in 1..Len(lat.subs)}
SiteNames(m) == OriginalNames(m.lat) \cup {m.smods[i].name : i \in Generators(m, "site_gen")}
HopNames(m) == {m.lat.hops[i].name : i \in 1..Len(m.lat.hops)}
               \cup {m.smods[i].name : i \in Generators(m, "hop_gen")}
SiteEnergy(m, name) ==
  IF name \in OriginalNames(m.lat) THEN Sub(m.lat, name).e
  ELSE HermitianCompletion(m.smods[CHOOSE i \in Generators(m, "site_gen") : m.smods[i].name = name].e)
HopEnergy(m, name) ==
  IF HasFam(m.lat, name) THEN m.lat.hops[FamIdx(m.lat, name)].e
  ELSE m.smods[CHOOSE i \in Generators(m, "hop_gen") : m.smods[i].name = name].e
\* generated hoppings of which the direction does not matter
Directionless(m, name) == ~HasFam(m.lat, name) /\ IsHermitian(HopEnergy(m, name))

\* -------------------------------------------------------- the infinite lattice
\* neighbours of a site of sublattice s: both directions of every term
NeighborTable(lat) ==
  [s \in 1..Len(lat.subs) |->
     UNION {UNION {LET t == lat.hops[f].terms[k] IN
            (IF t.from = lat.subs[s].name
             THEN {[rel |-> t.rel, to |-> SubIdx(lat, t.to), fam |-> lat.hops[f].name, conj |-> FALSE]} ELSE {})
            \cup (IF t.to = lat.subs[s].name
             THEN {[rel |-> VNeg(t.rel), to |-> SubIdx(lat, t.from), fam |-> lat.hops[f].name, conj |-> TRUE]} ELSE {})
         : k \in 1..Len(lat.hops[f].terms)} : f \in 1..Len(lat.hops)}]
SitePos(lat, id) == VAdd(VAdd(lat.offset, CellPos(lat, id)), lat.subs[id[4]].pos)
Beyond(id, n) == <<id[1] + n.rel[1], id[2] + n.rel[2], id[3] + n.rel[3], n.to>>

\* ------------------------------------------------------------------ foundation
GridRange(m) ==
  IF m.shape.kind = "none"
  THEN [lo |-> <<0 - (m.prim[1] \div 2), 0 - (m.prim[2] \div 2), 0 - (m.prim[3] \div 2)>>,
        hi |-> <<m.prim[1] - (m.prim[1] \div 2) - 1, m.prim[2] - (m.prim[2] \div 2) - 1,
                 m.prim[3] - (m.prim[3] \div 2) - 1>>,
        exact |-> TRUE]
  ELSE CellRange(m.lat, m.shape)
InRange(g, id) == \A i \in 1..3 : g.lo[i] <= id[i] /\ id[i] <= g.hi[i]
GridIds(m, g) == {<<a, b, c, s>> : a \in g.lo[1]..g.hi[1], b \in g.lo[2]..g.hi[2],
                                   c \in g.lo[3]..g.hi[3], s \in 1..Len(m.lat.subs)}

\* Sites which have lost neighbours, and have fewer than `min` left, are dangling: they are
\* removed, which may leave others dangling in turn.  Neighbours outside of the grid of cells
\* don't count as lost.
DanglingSites(nbt, g, V, min) ==
  {s \in V : /\ Cardinality({n \in nbt[s[4]] : Beyond(s, n) \in V}) < min
             /\ \E n \in nbt[s[4]] : Beyond(s, n) \notin V /\ InRange(g, Beyond(s, n))}
RECURSIVE RemoveDangling(_, _, _, _)
RemoveDangling(nbt, g, V, min) ==
  LET D == DanglingSites(nbt, g, V, min) IN
  IF D = {} THEN V ELSE RemoveDangling(nbt, g, V \ D, min)
\* without the exception for the edge of the grid
RECURSIVE RemoveDanglingStrict(_, _, _)
RemoveDanglingStrict(nbt, V, min) ==
  LET D == {s \in V : Cardinality({n \in nbt[s[4]] : Beyond(s, n) \in V}) < min} IN
  IF D = {} THEN V ELSE RemoveDanglingStrict(nbt, V \ D, min)

\* the periodic window: N cells in the middle of the grid, in each periodic direction
Periodic(m, i) == i <= Len(m.lat.vecs) /\ m.sym[i] >= 0
HasSymmetry(m) == m.sym # NoSym
Window(m, g) ==
  [i \in 1..3 |->
     IF Periodic(m, i)
     THEN LET size == g.hi[i] - g.lo[i] + 1
              left == g.lo[i] + Trunc(size - m.sym[i], 2)
          IN [per |-> TRUE, lo |-> left, hi |-> left + m.sym[i] - 1, n |-> m.sym[i]]
     ELSE [per |-> FALSE, lo |-> g.lo[i], hi |-> g.hi[i], n |-> 0]]
InWindow(w, id) == \A i \in 1..3 : w[i].lo <= id[i] /\ id[i] <= w[i].hi

\* floor division
FDiv(a, b) == a \div b          \* TLC rounds towards minus infinity for b > 0

\* -------------------------------------------------------------------- states
\* of the structure while it is being built; `log`: what the modifiers and generators see
LinAt(lin, p) == lin[1] * p[1] + lin[2] * p[2] + lin[3] * p[3] + lin[4]
RuleAt(r, p) == LinAt(r.lin, p) % r.m = r.r
Matches(want, name) == want = "" \/ want = name

LatticeHops(nbt, V) ==
  UNION {{[fam |-> n.fam, a |-> s, b |-> Beyond(s, n)] :
            n \in {x \in nbt[s[4]] : ~x.conj /\ Beyond(s, x) \in V}} : s \in V}

\* A hopping which leaves the window ends on the site which is a whole number of periods away.
\* The shift of the boundary is minus that displacement.
Wraps(w, t) == [i \in 1..3 |-> IF w[i].per THEN FDiv(t[i] - w[i].lo, w[i].n) ELSE 0]
BoundaryHops(m, nbt, w, V) ==
  LET One(s, n) ==
        LET t == Beyond(s, n)
            k == Wraps(w, t)
            b == <<t[1] - k[1] * w[1].n, t[2] - k[2] * w[2].n, t[3] - k[3] * w[3].n, t[4]>>
        IN IF (k[1] = 0 /\ k[2] = 0 /\ k[3] = 0) \/ b \notin V THEN {}
           ELSE {[fam |-> n.fam, a |-> s, b |-> b,
                  shift |-> VNeg(CellPos(m.lat, <<k[1] * w[1].n, k[2] * w[2].n, k[3] * w[3].n>>))]}
  IN UNION {UNION {One(s, n) : n \in {x \in nbt[s[4]] : ~x.conj}} : s \in V}

\* ---- modifiers on the foundation: called for every sublattice of the lattice, under its own name
FoundationMod(m, nbt, g, st, mod) ==
  IF mod.op = "state_mod"
  THEN LET name(s) == m.lat.subs[s[4]].name
           log == {[cb |-> "state", tag |-> mod.tag, sub |-> m.lat.subs[i].name,
                    seen |-> {st.pos[s] : s \in {x \in st.V : x[4] = i}}] : i \in 1..Len(m.lat.subs)}
           V1 == {s \in st.V : ~(Matches(mod.sub, name(s)) /\ RuleAt(mod.rule, st.pos[s]))}
           V2 == IF mod.minnb > 0 THEN RemoveDangling(nbt, g, V1, mod.minnb) ELSE V1
       IN [st EXCEPT !.V = V2, !.log = @ \cup {x \in log : x.seen # {}}]
  ELSE LET name(s) == m.lat.subs[s[4]].name
       IN [st EXCEPT !.pos = [s \in DOMAIN st.pos |->
              IF Matches(mod.sub, name(s)) /\ RuleAt(mod.rule, st.pos[s])
              THEN VAdd(st.pos[s], mod.d) ELSE st.pos[s]]]

\* ---- modifiers and generators on the system: called with the public names
Purge(st) == [st EXCEPT !.V = @ \ st.off, !.off = {},
                        !.hops = {h \in @ : h.a \notin st.off /\ h.b \notin st.off},
                        !.bounds = {h \in @ : h.a \notin st.off /\ h.b \notin st.off}]
SystemMod(m, st, idx) ==
  LET mod == m.smods[idx] IN
  CASE mod.op = "state_mod" ->
         LET on == st.V \ st.off
             log == {[cb |-> "state", tag |-> mod.tag, sub |-> n,
                      seen |-> {st.pos[s] : s \in {x \in on : st.sub[x] = n}}] : n \in {st.sub[s] : s \in on}}
         IN [st EXCEPT !.off = @ \cup {s \in st.V : Matches(mod.sub, st.sub[s]) /\ RuleAt(mod.rule, st.pos[s])},
                       !.log = @ \cup log,
                       !.err = IF mod.minnb > 0 THEN "dangling after generator" ELSE @]
    [] mod.op = "pos_mod" ->
         [st EXCEPT !.pos = [s \in DOMAIN st.pos |->
              IF Matches(mod.sub, st.sub[s]) /\ RuleAt(mod.rule, st.pos[s])
              THEN VAdd(st.pos[s], mod.d) ELSE st.pos[s]]]
    [] mod.op = "site_gen" ->
         LET p == Purge(st)
             src == {s \in p.V : p.sub[s] = mod.sub /\ RuleAt(mod.rule, p.pos[s])}
             new == [s \in {Append(x, 100 + idx) : x \in src} |-> Front(s)]
         IN [p EXCEPT !.V = @ \cup DOMAIN new,
                      !.pos = [s \in DOMAIN p.pos \cup DOMAIN new |->
                                 IF s \in DOMAIN new THEN VAdd(p.pos[new[s]], mod.d) ELSE p.pos[s]],
                      !.sub = [s \in DOMAIN p.sub \cup DOMAIN new |->
                                 IF s \in DOMAIN new THEN mod.name ELSE p.sub[s]],
                      !.seen = Append(@, [tag |-> mod.tag, V |-> p.V, pos |-> p.pos, sub |-> p.sub,
                                          hops |-> p.hops, bounds |-> p.bounds])]
    [] mod.op = "hop_gen" ->
         LET p == Purge(st)
             A == {s \in p.V : p.sub[s] = mod.from}
             B == {s \in p.V : p.sub[s] = mod.to}
             pairs == {ab \in A \X B : VAdd(p.pos[ab[1]], mod.d) = p.pos[ab[2]]}
             both == mod.twice /\ ~IsHermitian(mod.e)
             new == {[fam |-> mod.name, a |-> ab[1], b |-> ab[2]] : ab \in pairs}
                    \cup (IF both THEN {[fam |-> mod.name, a |-> ab[2], b |-> ab[1]] : ab \in pairs} ELSE {})
         IN [p EXCEPT !.hops = @ \cup new,
                      !.seen = Append(@, [tag |-> mod.tag, V |-> p.V, pos |-> p.pos, sub |-> p.sub,
                                          hops |-> p.hops, bounds |-> p.bounds])]

\* ----------------------------------------------------------------------- leads
\* Looking along the lead's axis from its side: the first layer of cells, within the extent of
\* the lead's shape, where the structure has sites.  Every lead site of that layer is filled in,
\* and the gap between it and the structure as well.  The lead's sites are the ones of the cross-section
\* of the shape: the layer of cells in the middle of the part of its extent which the grid covers.
LeadAxis(ld) == Abs(ld.dir)
LeadSign(ld) == IF ld.dir > 0 THEN 1 ELSE -1
LeadCells(m, g, ld) ==
  LET r == CellRange(m.lat, ld.shape) IN
  [lo |-> [i \in 1..3 |-> IF r.lo[i] > g.lo[i] THEN r.lo[i] ELSE g.lo[i]],
   hi |-> [i \in 1..3 |-> IF r.hi[i] < g.hi[i] THEN r.hi[i] ELSE g.hi[i]], exact |-> r.exact]
AtLayer(x, ax, c) == [x EXCEPT ![ax] = c]
LeadPlan(m, g, V, ld) ==
  LET ax == LeadAxis(ld)
      lc == LeadCells(m, g, ld)
      perp(id) == \A i \in 1..3 : i = ax \/ (lc.lo[i] <= id[i] /\ id[i] <= lc.hi[i])
      layers == {s[ax] : s \in {x \in V : perp(x)}}
      L == IF layers = {} THEN 0 ELSE IF ld.dir > 0 THEN MaxOf(layers) ELSE MinOf(layers)
      cells == {<<a, b, c, s>> : a \in (IF ax = 1 THEN {L} ELSE lc.lo[1]..lc.hi[1]),
                                 b \in (IF ax = 2 THEN {L} ELSE lc.lo[2]..lc.hi[2]),
                                 c \in (IF ax = 3 THEN {L} ELSE lc.lo[3]..lc.hi[3]), s \in 1..Len(m.lat.subs)}
      \* (the end is past the last layer; a shape next to the grid counts as its nearest layer)
      first0 == lc.lo[ax] - g.lo[ax]
      end0 == IF lc.hi[ax] + 1 - g.lo[ax] > first0 THEN lc.hi[ax] + 1 - g.lo[ax] ELSE first0
      mid == g.lo[ax] + MinOf({(first0 + end0) \div 2, g.hi[ax] - g.lo[ax]})
      section(x) == SitePos(m.lat, AtLayer(x, ax, mid))
      X == {x \in cells : Inside(ld.shape, section(x))}
      near == \E x \in cells : OnBoundary(ld.shape, section(x))
      inward(c) == IF ld.dir > 0 THEN c <= L ELSE c >= L
      depth(x) == {c \in g.lo[ax]..g.hi[ax] : inward(c) /\ AtLayer(x, ax, c) \in V}
      first(x) == IF ld.dir > 0 THEN MaxOf(depth(x)) ELSE MinOf(depth(x))
      fill == UNION {{AtLayer(x, ax, c) : c \in {y \in g.lo[ax]..g.hi[ax] :
                        inward(y) /\ (IF ld.dir > 0 THEN y > first(x) ELSE y < first(x))}} : x \in X}
  IN IF ~lc.exact THEN [err |-> "", skip |-> "lead range", L |-> 0, X |-> {}, fill |-> {}]
     ELSE IF layers = {} THEN [err |-> "lead misses", skip |-> "", L |-> 0, X |-> {}, fill |-> {}]
     ELSE IF near THEN [err |-> "", skip |-> "site on the boundary of the lead's shape", L |-> 0, X |-> {}, fill |-> {}]
     ELSE IF X = {} THEN [err |-> "lead empty", skip |-> "", L |-> 0, X |-> {}, fill |-> {}]
     ELSE IF \E x \in X : depth(x) = {} THEN [err |-> "lead partially misses", skip |-> "", L |-> L, X |-> X, fill |-> {}]
     ELSE [err |-> "", skip |-> "", L |-> L, X |-> X, fill |-> fill]

AttachLeads(m, g, V0) ==
  LET step(acc, ld) ==
        IF acc.err # "" \/ acc.skip # "" THEN acc
        ELSE LET p == LeadPlan(m, g, acc.V, ld) IN
             [V |-> acc.V \cup p.fill, err |-> p.err, skip |-> p.skip, plans |-> Append(acc.plans, p)]
      r == FoldLeft(step, [V |-> V0, err |-> "", skip |-> "", plans |-> <<>>], m.leads)
  IN r

\* The periodic structure of an attached lead: one unit cell (a copy of the attached layer, one
\* lattice vector outwards), the hoppings inside of it, and the ones which connect each site `a`
\* of a cell to the sites `b` of the next cell inwards
LeadStructure(m, nbt, ld, plan) ==
  LET ax == LeadAxis(ld)
      sg == LeadSign(ld)
      out == VMul(sg, m.lat.vecs[ax])
      step == [rel |-> [i \in 1..3 |-> IF i = ax THEN sg ELSE 0]]
      outer(x) == <<x[1] + step.rel[1], x[2] + step.rel[2], x[3] + step.rel[3], x[4]>>
  IN [X |-> plan.X, shift |-> out,
      pos |-> [x \in plan.X |-> VAdd(SitePos(m.lat, x), out)],
      hops |-> LatticeHops(nbt, plan.X),
      bounds |-> UNION {{[fam |-> n.fam, a |-> x, b |-> Beyond(outer(x), n), conj |-> n.conj] :
                          n \in {y \in nbt[x[4]] : Beyond(outer(x), y) \in plan.X}} : x \in plan.X}]

\* ------------------------------------------------------------------- the build
Failed(e) == [err |-> e, skip |-> "", V |-> {}, pos |-> <<>>, sub |-> <<>>, hops |-> {}, bounds |-> {},
              log |-> {}, seen |-> <<>>, plans |-> <<>>, off |-> {}]
Skipped(e) == [Failed("") EXCEPT !.skip = e]

FirstGenerator(m) == LET G == {i \in 1..Len(m.smods) : IsGenerator(m.smods[i])} IN
                     IF G = {} THEN Len(m.smods) + 1 ELSE MinOf(G)

BuildStructure(m) ==
  LET lat == m.lat
      nbt == NeighborTable(lat)
      g == GridRange(m)
      ids == GridIds(m, g)
      pos0 == [s \in ids |-> SitePos(lat, s)]
      shaped == m.shape.kind # "none"
      near == shaped /\ \E s \in ids : OnBoundary(m.shape, pos0[s])
      V0 == IF shaped THEN {s \in ids : Inside(m.shape, pos0[s])} ELSE ids
      V1 == IF shaped THEN RemoveDangling(nbt, g, V0, lat.minnb) ELSE V0
      edge == shaped /\ \E s \in V1 : Cardinality({n \in nbt[s[4]] : Beyond(s, n) \in V1}) < lat.minnb
                                      /\ \E n \in nbt[s[4]] : Beyond(s, n) \notin V1
      w == Window(m, g)
      V2 == IF HasSymmetry(m) THEN {s \in V1 : InWindow(w, s)} ELSE V1
      k == FirstGenerator(m)
      st0 == [V |-> V2, pos |-> pos0, log |-> {}]
      st1 == FoldLeft(LAMBDA st, mod : FoundationMod(m, nbt, g, st, mod), st0, SubSeq(m.smods, 1, k - 1))
      at == AttachLeads(m, g, st1.V)
      st2 == [err |-> "", skip |-> "", V |-> at.V, off |-> {},
              pos |-> [s \in at.V |-> st1.pos[s]],
              sub |-> [s \in at.V |-> lat.subs[s[4]].orig],
              hops |-> LatticeHops(nbt, at.V),
              bounds |-> IF HasSymmetry(m) THEN BoundaryHops(m, nbt, w, at.V) ELSE {},
              log |-> st1.log, seen |-> <<>>, plans |-> at.plans]
      st3 == FoldLeft(LAMBDA st, i : IF st.err # "" THEN st ELSE SystemMod(m, st, i), st2,
                      [i \in 1..(Len(m.smods) - k + 1) |-> k + i - 1])
      st4 == Purge(st3)
  IN IF ~g.exact THEN Skipped("cell range")
     ELSE IF near THEN Skipped("site on the boundary of the shape")
     ELSE IF edge THEN Skipped("dangling at the edge of the grid")
     ELSE IF m.leads # <<>> /\ \E i \in 1..(k - 1) : m.smods[i].op = "pos_mod" THEN Skipped("leads of a modified structure")
     ELSE IF at.skip # "" THEN Skipped(at.skip)
     ELSE IF at.err # "" THEN Failed(at.err)
     ELSE IF st3.err # "" THEN Failed(st3.err)
     ELSE IF st4.V = {} THEN Failed("no sites")
     ELSE [st4 EXCEPT !.pos = [s \in st4.V |-> st4.pos[s]], !.sub = [s \in st4.V |-> st4.sub[s]]]
=============================================================================
