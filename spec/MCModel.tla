------------------------------ MODULE MCModel ------------------------------
(* Exhaustive exploration of small models: every description which a few     *)
(* building steps can reach, over a small alphabet, together with the        *)
(* structure and the Hamiltonian which the specification assigns to it.      *)
EXTENDS Ham

CONSTANTS Lats,        \* which of the lattices
          Kinds,       \* kinds of steps
          MaxSteps
VARIABLES m, n
vars == <<m, n>>

S(x) == <<<<<<x, 0>>>>>>
S1 == <<<<<<0, 1>>>>>>
Apply1(l, e) == CASE e.op = "add_sub" -> DoAddSub(l, e).lat
                  [] e.op = "add_alias" -> DoAddAlias(l, e).lat
                  [] e.op = "reg_hop" -> DoRegisterHop(l, e).lat
                  [] e.op = "add_hop" -> DoAddHop(l, e).lat
                  [] e.op = "min_nb" -> DoMinNb(l, e).lat
SubOp(nm, p, e) == [op |-> "add_sub", name |-> nm, pos |-> p, e |-> e]
Reg(nm, e) == [op |-> "reg_hop", name |-> nm, e |-> e]
Hop(r, f, t, h) == [op |-> "add_hop", rel |-> r, from |-> f, to |-> t, hop |-> h]
MinNb(k) == [op |-> "min_nb", n |-> k]
Build(vecs, ops) == FoldLeft(Apply1, EmptyLattice(vecs), ops)

V1 == <<<<8, 0, 0>>>>
V2 == <<<<8, 0, 0>>, <<4, 8, 0>>>>
M2 == <<<<<<1, 0>>, <<2, 1>>>>, <<<<0, 0>>, <<4, 0>>>>>>
R12 == <<<<<<1, 0>>, <<0, 2>>>>>>
Lat(i) ==
  CASE i = 1 -> Build(V1, <<SubOp("A", Zero3, S(3)), Reg("t", S(2)), Hop(<<1, 0, 0>>, "A", "A", "t"), MinNb(1)>>)
    \* two sublattices, complex hopping, reaching over two cells
    [] i = 2 -> Build(V1, <<SubOp("A", Zero3, S(1)), SubOp("B", <<4, 0, 0>>, S(0)), Reg("t", S(2)), Reg("u", S1),
                            Hop(Zero3, "A", "B", "t"), Hop(<<-1, 0, 0>>, "A", "B", "t"), Hop(<<2, 0, 0>>, "A", "A", "u"),
                            MinNb(2)>>)
    [] i = 3 -> Build(V2, <<SubOp("A", Zero3, M2), SubOp("B", <<4, 2, 0>>, S(5)), Reg("t", R12), Reg("u", S(3)),
                            Hop(Zero3, "B", "A", "t"), Hop(<<1, 0, 0>>, "B", "B", "u"), Hop(<<0, -1, 0>>, "B", "B", "u"),
                            MinNb(2)>>)
    \* honeycomb-like, with an alias
    [] i = 4 -> Build(V2, <<SubOp("A", Zero3, S(1)), [op |-> "add_alias", name |-> "X", orig |-> "A", pos |-> <<4, 2, 0>>],
                            Reg("t", S(2)), Hop(Zero3, "A", "X", "t"), Hop(<<-1, 0, 0>>, "A", "X", "t"),
                            Hop(<<0, -1, 0>>, "A", "X", "t"), MinNb(2)>>)

Is2D == Len(m.lat.vecs) = 2
Box(lo, hi) == [kind |-> "box", lo |-> lo, hi |-> hi]
R(a, b, k, r) == [lin |-> <<a, b, 0, 0>>, m |-> k, r |-> r]
Steps ==
  (IF "prim" \in Kinds THEN {[m EXCEPT !.prim = <<a, b, 1>>] : a \in 1..4, b \in (IF Is2D THEN {1, 3} ELSE {1})} ELSE {})
  \cup (IF "shape" \in Kinds
        THEN {[m EXCEPT !.shape = s] : s \in
               {Box(<<-9, -7, -1>>, <<x, 13, 1>>) : x \in {7, 17, 23}}
               \cup {[kind |-> "polygon", verts |-> <<<<-13, -11, 0>>, <<19, -7, 0>>, <<x, 17, 0>>>>] : x \in {1, 15}}
               \cup {[kind |-> "line", a |-> <<-11, 1, 0>>, b |-> <<x, 3, 0>>] : x \in {9, 21}}}
        ELSE {})
  \cup (IF "sym" \in Kinds
        THEN {[m EXCEPT !.sym = <<a, b, -1>>] : a \in {-1, 1, 2, 3}, b \in (IF Is2D THEN {-1, 1, 2} ELSE {-1})} ELSE {})
  \cup (IF "state" \in Kinds
        THEN {[m EXCEPT !.smods = Append(@, [op |-> "state_mod", tag |-> "s", sub |-> s, rule |-> r, minnb |-> k])] :
                s \in {"", "A"}, r \in {R(1, 1, 3, 0), R(1, 2, 5, 1)}, k \in {0, 1, 2}} ELSE {})
  \cup (IF "pos" \in Kinds
        THEN {[m EXCEPT !.smods = Append(@, [op |-> "pos_mod", tag |-> "p", sub |-> s, rule |-> R(1, 0, 2, 0), d |-> d])] :
                s \in {"", "B"}, d \in {<<1, 0, 0>>, <<0, 3, 0>>}} ELSE {})
  \cup (IF "sgen" \in Kinds /\ "S" \notin SiteNames(m)
        THEN {[m EXCEPT !.smods = Append(@, [op |-> "site_gen", tag |-> "g", name |-> "S", e |-> e, sub |-> "A",
                                             rule |-> R(1, 0, 3, 1), d |-> <<0, 0, 5>>])] : e \in {S(4), M2}} ELSE {})
  \cup (IF "hgen" \in Kinds /\ "h" \notin HopNames(m)
        THEN {[m EXCEPT !.smods = Append(@, [op |-> "hop_gen", tag |-> "g", name |-> "h", e |-> S1, from |-> "A",
                                             to |-> t, d |-> d, twice |-> FALSE])] :
                t \in {x \in {"A", "S"} : x \in SiteNames(m) /\ Rows(SiteEnergy(m, x)) = 1 /\ Rows(SiteEnergy(m, "A")) = 1},
                d \in {<<8, 0, 0>>, <<0, 0, 5>>}} ELSE {})
  \cup (IF "onsite" \in Kinds
        THEN {[m EXCEPT !.omods = Append(@, [tag |-> "o", sub |-> s, kind |-> k, lin |-> <<1, 1, 0, 1>>, w |-> <<1, 2>>,
                                             complex |-> FALSE, double |-> FALSE])] :
                s \in {"", "A"}, k \in {"add", "mul", "mix"}} ELSE {})
  \cup (IF "hop" \in Kinds
        THEN {[m EXCEPT !.hmods = Append(@, [tag |-> "h", fam |-> f, kind |-> k, lin1 |-> <<1, 0, 0, 1>>, lin2 |-> <<0, 1, 0, 0>>,
                                             complex |-> FALSE, double |-> FALSE, log |-> FALSE])] :
                f \in {"", "t"}, k \in {"add", "mul", "phase"}} ELSE {})
  \cup (IF "lead" \in Kinds /\ Is2D
        THEN {[m EXCEPT !.leads = Append(@, [dir |-> d, shape |-> Box(<<-99, lo, -1>>, <<99, lo + 16, 1>>)])] :
                d \in {1, -1}, lo \in {-7, 1}} ELSE {})
  \cup (IF "wave" \in Kinds THEN {[m EXCEPT !.k = k] : k \in {Zero3, <<1, 0, 0>>, <<1, 2, 0>>}} ELSE {})

Init == n = 0 /\ m \in {NewModel(Lat(i)) : i \in Lats}
Next == n < MaxSteps /\ n' = n + 1 /\ m' \in Steps
Spec == Init /\ [][Next]_vars
View == m
--------------------------------------------------------------------------------
Sys == BuildStructure(m)
Good(sys) == sys.err = "" /\ sys.skip = ""

\* ---- the structure
WellFormed(sys) ==
  /\ DOMAIN sys.pos = sys.V /\ DOMAIN sys.sub = sys.V /\ sys.V # {}
  /\ \A h \in sys.hops \cup sys.bounds : h.a \in sys.V /\ h.b \in sys.V /\ h.fam \in HopNames(m)
                                         /\ Rows(HopEnergy(m, h.fam)) = Rows(SiteEnergy(m, sys.sub[h.a]))
                                         /\ Cols(HopEnergy(m, h.fam)) = Rows(SiteEnergy(m, sys.sub[h.b]))
  /\ \A s \in sys.V : sys.sub[s] \in SiteNames(m)
  /\ \A h \in sys.bounds : h.shift # Zero3

\* the sites of the unmodified system are the ones of the lattice inside of the shape
Modified == m.smods # <<>> \/ m.leads # <<>>
SitesAreLattice(sys) ==
  ~Modified =>
    /\ \A s \in sys.V : sys.pos[s] = SitePos(m.lat, s)
    /\ m.shape.kind # "none" => \A s \in sys.V : Inside(m.shape, sys.pos[s])
    /\ m.shape.kind = "none" /\ ~HasSymmetry(m) => Cardinality(sys.V) = m.prim[1] * m.prim[2] * m.prim[3] * Len(m.lat.subs)
\* the cells of the bounding box contain all cells with sites inside of the shape: every site inside which is
\* at most two cells outside of the grid is in the grid
CoversShape(sys) ==
  m.shape.kind # "none" =>
    LET g == GridRange(m)
        wide == [lo |-> [i \in 1..3 |-> IF i <= Len(m.lat.vecs) THEN g.lo[i] - 2 ELSE 0],
                 hi |-> [i \in 1..3 |-> IF i <= Len(m.lat.vecs) THEN g.hi[i] + 2 ELSE 0]]
    IN m.shape.kind # "line" =>      \* a line is not limited sideways
       \A s \in GridIds(m, wide) : Inside(m.shape, SitePos(m.lat, s)) => InRange(g, s)

\* a lattice hopping between two sites which are both there is never lost, and none is invented
HoppingsAreLattice(sys) ==
  LET lat == {s \in sys.V : Len(s) = 4}
      nbt == NeighborTable(m.lat)
  IN /\ \A s \in lat : \A x \in nbt[s[4]] : Beyond(s, x) \in lat =>
           (IF x.conj THEN [fam |-> x.fam, a |-> Beyond(s, x), b |-> s] ELSE [fam |-> x.fam, a |-> s, b |-> Beyond(s, x)])
           \in sys.hops
     /\ \A h \in sys.hops : HasFam(m.lat, h.fam) =>
           \E x \in nbt[h.a[4]] : ~x.conj /\ x.fam = h.fam /\ Beyond(h.a, x) = h.b

\* ---- dangling sites: what remains does not depend on the order of removal
RECURSIVE RemoveOneByOne(_, _, _, _, _)
RemoveOneByOne(nbt, g, V, min, first) ==
  LET D == DanglingSites(nbt, g, V, min) IN
  IF D = {} THEN V
  ELSE LET rank(x) == x[1] * 1000 + x[2] * 30 + x[4]
           s == CHOOSE x \in D : \A y \in D : IF first THEN rank(x) <= rank(y) ELSE rank(x) >= rank(y)
       IN RemoveOneByOne(nbt, g, V \ {s}, min, first)
OrderIndependent(sys) ==
  m.shape.kind # "none" =>
    LET nbt == NeighborTable(m.lat)
        g == GridRange(m)
        V0 == {s \in GridIds(m, g) : Inside(m.shape, SitePos(m.lat, s))}
        V == RemoveDangling(nbt, g, V0, m.lat.minnb)
    IN /\ V \subseteq V0
       /\ V = RemoveOneByOne(nbt, g, V0, m.lat.minnb, TRUE)
       /\ V = RemoveOneByOne(nbt, g, V0, m.lat.minnb, FALSE)
       \* it is the largest part of the structure without dangling sites
       /\ \A s \in V0 \ V : DanglingSites(nbt, g, V \cup {s}, m.lat.minnb) # {}
NoDanglingSites(sys) ==
  m.shape.kind # "none" /\ ~Modified /\ ~HasSymmetry(m) =>
    \A s \in sys.V : LET N == NeighborTable(m.lat)[s[4]] IN
      \* (a site which has fewer neighbours in the infinite lattice is not dangling as long as it has them all)
      Cardinality({x \in N : Beyond(s, x) \in sys.V}) >= (IF Cardinality(N) < m.lat.minnb THEN Cardinality(N) ELSE m.lat.minnb)

\* ---- translational symmetry: in all periodic directions every site of the window has all of its neighbours,
\* and the Hamiltonian does not depend on where the window is
Degree(sys, s) == Cardinality({h \in sys.hops : h.a = s}) + Cardinality({h \in sys.hops : h.b = s})
                  + Cardinality({h \in sys.bounds : h.a = s}) + Cardinality({h \in sys.bounds : h.b = s})
FullyPeriodic == \A i \in 1..Len(m.lat.vecs) : m.sym[i] > 0
FullCoordination(sys) ==
  FullyPeriodic /\ m.shape.kind = "none" /\ ~Modified /\ (\A i \in 1..Len(m.lat.vecs) : m.sym[i] <= m.prim[i]) =>
    /\ Cardinality(sys.V) = m.sym[1] * (IF Is2D THEN m.sym[2] ELSE 1) * Len(m.lat.subs)
    /\ \A s \in sys.V : Degree(sys, s) = Cardinality(NeighborTable(m.lat)[s[4]])
RelabelCell(x) == <<x[1] % m.sym[1], IF Is2D THEN x[2] % m.sym[2] ELSE 0, 0, x[4]>>
Moved == [m EXCEPT !.prim = <<m.prim[1] + 2, m.prim[2] + (IF Is2D THEN 3 ELSE 0), 1>>]

\* ---- Hamiltonian
HermitianElements(E) == \A x \in E : <<x[3], x[4], x[1], x[2], x[5], 0 - x[6]>> \in E
IsHermitianHam(sys) ==
  LET h == BuildHam(m, sys) IN
  /\ HermitianElements(h.elements)
  /\ \A x \in h.elements : x[1] \in sys.V /\ x[3] \in sys.V
                           /\ x[2] \in 1..Rows(SiteEnergy(m, sys.sub[x[1]])) /\ x[4] \in 1..Rows(SiteEnergy(m, sys.sub[x[3]]))
                           /\ ((\E e \in h.elements : e[6] # 0) => h.type \in {"cfloat", "cdouble"})
  \* without modifiers the block of each site on the diagonal is its onsite energy
  /\ (m.omods = <<>> /\ m.hmods = <<>> /\ ~HasSymmetry(m) =>
       \A s \in sys.V : LET E == SiteEnergy(m, sys.sub[s]) IN
         \A r \in 1..Rows(E), c \in 1..Rows(E) :
           E[r][c] = CZero \/ <<s, r, s, c, E[r][c][1], E[r][c][2]>> \in h.elements)
\* an infinite periodic lattice without edges has the same Bloch Hamiltonian wherever the window is
TranslationInvariant(sys) ==
  FullyPeriodic /\ m.shape.kind = "none" /\ ~Modified /\ m.omods = <<>> /\ m.hmods = <<>>
    /\ (\A i \in 1..Len(m.lat.vecs) : m.sym[i] <= m.prim[i]) =>
    LET rel(E) == {<<RelabelCell(x[1]), x[2], RelabelCell(x[3]), x[4], x[5], x[6]>> : x \in E}
        other == BuildStructure(Moved)
        \* the phase of a wrapped hopping depends on the place of the window by a gauge transformation; with
        \* k = 0 there is none
    IN m.k = Zero3 => rel(BuildHam(m, sys).elements) = rel(BuildHam(Moved, other).elements)
\* a Bloch state of one cell is also one of a period of n cells: the expectation value is n times that of one cell
CellOf(s) == LET w(i) == IF i <= Len(m.lat.vecs) THEN [c \in 1..3 |-> s[i] * m.lat.vecs[i][c]] ELSE Zero3
             IN VAdd(w(1), VAdd(w(2), w(3)))
SumAll(E) == SumC({[v |-> CMul(<<x[5], x[6]>>, Phase(m.k, VSub(CellOf(x[1]), CellOf(x[3])))), key |-> x] : x \in E})
ExtensiveSum(sys) ==
  FullyPeriodic /\ m.shape.kind = "none" /\ ~Modified /\ m.omods = <<>> /\ m.hmods = <<>>
    /\ (\A i \in 1..Len(m.lat.vecs) : m.sym[i] <= m.prim[i]) =>
    LET one == [m EXCEPT !.sym = <<1, IF Is2D THEN 1 ELSE -1, -1>>]
        cells == m.sym[1] * (IF Is2D THEN m.sym[2] ELSE 1)
        total == SumAll(BuildHam(m, sys).elements)
        single == SumAll(BuildHam(one, BuildStructure(one)).elements)
    IN total = <<cells * single[1], cells * single[2]>>

\* ---- leads: the attached structure together with one more cell of each lead is what a longer
\* lead would give
LeadsContinue(sys) ==
  LET nbt == NeighborTable(m.lat) IN
  \A i \in 1..Len(m.leads) :
    LET ld == m.leads[i]
        st == LeadStructure(m, nbt, ld, sys.plans[i])
        ax == LeadAxis(ld)
        next(x) == [x EXCEPT ![ax] = @ + LeadSign(ld)]
        X == st.X
        Y == {next(x) : x \in X}
    IN /\ X \subseteq sys.V
       /\ \A x \in X : st.pos[x] = SitePos(m.lat, next(x))
       \* the hoppings between the cells, in both directions
       /\ {<<next(h.a), h.b>> : h \in st.bounds} =
             {ab \in Y \X X : \E x \in nbt[ab[1][4]] : Beyond(ab[1], x) = ab[2]}
       /\ \A h \in st.hops : [fam |-> h.fam, a |-> next(h.a), b |-> next(h.b)] \in LatticeHops(nbt, Y)

Structure_ == LET sys == Sys IN Good(sys) =>
  /\ WellFormed(sys) /\ SitesAreLattice(sys) /\ HoppingsAreLattice(sys)
Shape_ == LET sys == Sys IN Good(sys) => CoversShape(sys)
Dangling_ == LET sys == Sys IN Good(sys) => OrderIndependent(sys) /\ NoDanglingSites(sys)
Symmetry_ == LET sys == Sys IN Good(sys) => FullCoordination(sys) /\ TranslationInvariant(sys) /\ ExtensiveSum(sys)
Ham_ == LET sys == Sys IN Good(sys) => IsHermitianHam(sys)
Leads_ == LET sys == Sys IN Good(sys) => LeadsContinue(sys)
=============================================================================
