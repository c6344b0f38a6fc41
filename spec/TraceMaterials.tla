---------------------------- MODULE TraceMaterials ----------------------------
(* What the prebuilt materials, shapes and modifiers give. Energies are in meV. *)
EXTENDS Materials, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
Ev(t, i) == Traces[t].ev[i]

Lattice(o) == [vectors |-> o.vectors, min |-> o.min,
               subs |-> [i \in DOMAIN o.subs |-> [name |-> o.subs[i][1], at |-> o.subs[i][2], energy |-> o.subs[i][3], family |-> o.subs[i][4]]],
               hops |-> [i \in DOMAIN o.hops |-> [rel |-> o.hops[i][1], from |-> o.hops[i][2], to |-> o.hops[i][3], name |-> o.hops[i][4], energy |-> o.hops[i][5]]]]
Every(h) == TRUE
FirstTwo(v) == <<v[1], v[2]>>
Given(pairs, key) == IF \E k \in DOMAIN pairs : pairs[k][1] = key THEN (CHOOSE k \in DOMAIN pairs : pairs[k][1] = key) ELSE 0
Or(pairs, key, default) == LET k == Given(pairs, key) IN IF k = 0 THEN default ELSE pairs[k][2]
Names(L) == {h.name : h \in ToSet(L.hops)}
IsNamed(L, names) == {L.subs[i].name : i \in DOMAIN L.subs} = names /\ Len(L.subs) = Cardinality(names)
EnergyOf(L, name) == L.subs[CHOOSE i \in DOMAIN L.subs : L.subs[i].name = name].energy
Level(L, name) == L.subs[CHOOSE i \in DOMAIN L.subs : L.subs[i].name = name].at[3]
OnsiteOk(L, names, given, more) == \A k \in DOMAIN names : EnergyOf(L, names[k]) = <<(IF given = <<>> THEN 0 ELSE given[k]) + more>>
IsT(h) == h.name = "t"  IsTnn(h) == h.name = "t_nn"  IsTnnn(h) == h.name = "t_nnn"
IsGamma0(h) == h.name = "gamma0"  IsGamma1(h) == h.name = "gamma1"  IsGamma3(h) == h.name = "gamma3"  IsGamma4(h) == h.name = "gamma4"
\* the x axis and the y axis are not exchanged
Upright(L) == \E q \in BondsOf(L, Every) : LET v == Vector(L, q[1], q[2], q[3]) IN v[1] = 0 /\ Iabs(v[2]) = 2

Monolayer(L, e) ==
  LET energy(name, default) == Or(e.energies, name, default)
      t == energy("t", -2800)  tnn == energy("t_nn", 100)  tnnn == energy("t_nnn", 50)
  IN CASE ~IsNamed(L, {"A", "B"}) -> "sublattices"
       [] ~OnsiteOk(L, <<"A", "B">>, e.onsite, IF e.n >= 2 THEN 3 * tnn ELSE 0) -> "onsite energies"
       [] ~Shell(L, IsT, 4) \/ ~Opposite(L, IsT) -> "nearest neighbors"
       [] (IF e.n >= 2 THEN ~Shell(L, IsTnn, 12) ELSE BondsOf(L, IsTnn) # {}) -> "second neighbors"
       [] (IF e.n >= 3 THEN ~Shell(L, IsTnnn, 16) \/ ~Opposite(L, IsTnnn) ELSE BondsOf(L, IsTnnn) # {}) -> "third neighbors"
       [] ~(Names(L) \subseteq {"t", "t_nn", "t_nnn"}) -> "names of the hoppings"
       [] \E h \in ToSet(L.hops) : h.energy # (CASE IsT(h) -> t [] IsTnn(h) -> tnn [] OTHER -> tnnn) -> "hopping energies"
       [] OTHER -> ""
Honeycomb(L, e) ==
  CASE ~Shell(L, Every, 4) \/ ~Opposite(L, Every) -> "nearest neighbors"
    [] {L.subs[i].family : i \in DOMAIN L.subs} # {"A", "B"} \/ ~OnsiteOk(L, <<"A", "B">>, e.onsite, 0) -> "sublattices"
    [] e.material = "monolayer_4atom" /\ (Len(L.subs) # 4 \/ L.vectors[1][2] # 0 \/ L.vectors[2][1] # 0) -> "rectangular cell"
    [] e.material = "monolayer_alt" /\ Len(L.subs) # 2 -> "cell"
    [] \E h \in ToSet(L.hops) : h.energy # -2800 -> "hopping energies"
    [] OTHER -> ""
Bilayer(L, e) ==
  LET energy(h) == CASE IsGamma0(h) -> -2800 [] IsGamma1(h) -> -400 [] IsGamma3(h) -> -300 [] OTHER -> -40
      also(name) == \E k \in DOMAIN e.also : e.also[k] = name
  IN CASE ~IsNamed(L, {"A1", "B1", "A2", "B2"}) \/ ~OnsiteOk(L, <<"A1", "B1", "A2", "B2">>, e.onsite, 0) -> "sublattices"
       [] ~(Level(L, "A1") = Level(L, "B1") /\ Level(L, "A2") = Level(L, "B2") /\ Level(L, "A1") = Level(L, "A2") + 1) -> "layers"
       [] ~Shell(L, IsGamma0, 4) \/ ~Opposite(L, IsGamma0) -> "nearest neighbors"
       [] BondsOf(L, IsGamma1) # Interlayer(L, 0, LAMBDA p, q : TRUE) -> "pairs on top of each other"
       [] {<<L.subs[q[1]].name, L.subs[q[2]].name>> : q \in BondsOf(L, IsGamma1)} # {<<"B1", "A2">>, <<"A2", "B1">>} -> "stacking"
       [] BondsOf(L, IsGamma3) # (IF also("gamma3") THEN Interlayer(L, 4, LAMBDA p, q : ~p /\ ~q) ELSE {}) -> "gamma3"
       [] BondsOf(L, IsGamma4) # (IF also("gamma4") THEN Interlayer(L, 4, LAMBDA p, q : p # q) ELSE {}) -> "gamma4"
       [] ~(Names(L) \subseteq {"gamma0", "gamma1", "gamma3", "gamma4"}) -> "names of the hoppings"
       [] \E h \in ToSet(L.hops) : h.energy # energy(h) -> "hopping energies"
       [] OTHER -> ""
\* each family: all pairs of the same length (in 0.0001 nm) with the same difference of the height
PTable == << <<"t1", -1220, 2>>, <<"t2", 3665, 1>>, <<"t3", -205, 2>>, <<"t4", -105, 4>>, <<"t5", -55, 1>> >>
Length2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
SameLength(v, u) == Iabs(Length2(v) - Length2(u)) <= Length2(u) \div 400 /\ (v[3] = 0 <=> u[3] = 0)
Phosphorene(L, e) ==
  LET used == 1..e.n
      bonds(k) == BondsOf(L, LAMBDA h : h.name = PTable[k][1])
      one(k) == LET q == CHOOSE q \in bonds(k) : TRUE IN Vector(L, q[1], q[2], q[3])
  IN CASE ~IsNamed(L, {"A", "B", "C", "D"}) \/ ~OnsiteOk(L, <<"A", "B", "C", "D">>, <<>>, 0) -> "sublattices"
       [] Names(L) # {PTable[k][1] : k \in used} -> "families"
       [] \E k \in used : LET v == one(k) IN bonds(k) # PairsWhere(L, 2, LAMBDA i, j, u : SameLength(u, v)) -> "pairs of a family"
       [] \E k \in used, i \in 1..4 : Cardinality({q \in bonds(k) : q[1] = i}) # PTable[k][3] -> "number of neighbors"
       [] \E h \in ToSet(L.hops) : h.energy # PTable[CHOOSE k \in 1..5 : PTable[k][1] = h.name][2] -> "hopping energies"
       [] OTHER -> ""
Chain(L, e) ==
  CASE Len(L.vectors) # 1 \/ Len(L.subs) # 1 \/ EnergyOf(L, "A") # <<e.energy[2]>> -> "site"
    [] BondsOf(L, Every) # PairsWhere(L, 2, LAMBDA i, j, v : Length2(v) = 1) -> "neighbors"
    [] \E h \in ToSet(L.hops) : h.energy # e.energy[1] -> "hopping energies"
    [] OTHER -> ""
SquareLattice(L, e) ==
  CASE Len(L.vectors) # 2 \/ Len(L.subs) # 1 \/ EnergyOf(L, "A") # <<0>> -> "site"
    [] BondsOf(L, Every) # PairsWhere(L, 2, LAMBDA i, j, v : Length2(v) \in {1, 2}) -> "neighbors"
    [] \E h \in ToSet(L.hops) : h.energy # e.energy[1] -> "hopping energies"
    [] OTHER -> ""
\* from https://doi.org/10.1103/PhysRevB.88.085433: a in 0.0001 nm, the energies in meV: eps1 eps2 t0 t1 t2 t11 t12 t22
TMD == [MoS2 |-> <<3190, 1046, 2104, -184, 401, 507, 218, 338, 57>>, WS2 |-> <<3191, 1130, 2275, -206, 567, 536, 286, 384, -61>>,
        MoSe2 |-> <<3326, 919, 2065, -188, 317, 456, 211, 290, 130>>, WSe2 |-> <<3325, 943, 2179, -207, 457, 486, 263, 329, 34>>,
        MoTe2 |-> <<3557, 605, 1972, -169, 228, 390, 207, 239, 252>>, WTe2 |-> <<3560, 606, 2102, -175, 342, 410, 233, 270, 190>>]
Dichalcogenide(L, e) ==
  LET p == IF e.given THEN e.params ELSE TMD[e.name]
      M == Whole(<< <<p[4], -p[5], p[6]>>, <<p[5], p[7], -p[8]>>, <<p[6], p[8], p[9]>> >>)
      expected(v) == CASE v = <<2, 0>> -> Fourfold(M) [] v = <<-2, 0>> -> Fourfold(Flip(M)) [] v = <<-1, 1>> -> Turned(M, 1) [] v = <<-1, -1>> -> Turned(M, -1)
                       [] v = <<1, -1>> -> Turned(Flip(M), 1) [] v = <<1, 1>> -> Turned(Flip(M), -1)
  IN CASE p # e.params -> "parameters of the test"
       [] Len(L.subs) # 1 \/ L.subs[1].name # e.metal \/ L.subs[1].energy # <<p[2], p[3], p[3]>> -> "site"
       [] BondsOf(L, Every) # PairsWhere(L, 2, LAMBDA i, j, v : v[1] * v[1] + 3 * v[2] * v[2] = 4) -> "neighbors"
       [] \E h \in ToSet(L.hops) : h.energy # expected(FirstTwo(Vector(L, h.from, h.to, h.rel))) -> "hopping matrices"
       [] OTHER -> ""

LatticeMismatch(e) ==
  LET L == Lattice(e.obs)
  IN CASE ~Unique(L) \/ ~e.obs.flat -> "hoppings"
       [] e.material = "monolayer" -> Monolayer(L, e)
       [] e.material \in {"monolayer_alt", "monolayer_4atom"} -> Honeycomb(L, e)
       [] e.material = "bilayer" -> Bilayer(L, e)
       [] e.material = "phosphorene" -> Phosphorene(L, e)
       [] e.material = "chain" -> Chain(L, e)
       [] e.material = "square" -> SquareLattice(L, e)
       [] e.material = "tmd" -> Dichalcogenide(L, e)
MinMismatch(e) == IF e.material \in {"monolayer", "monolayer_alt", "monolayer_4atom", "bilayer", "phosphorene"} /\ e.obs.min # 2 THEN "dangling sites" ELSE ""
\* what can't be made
Refused(e) == e.op = "lattice" /\ ((e.material = "monolayer" /\ e.n > 3) \/ (e.material = "phosphorene" /\ e.n \notin 2..5) \/ (e.material = "tmd" /\ ~e.known))

(* ---- shape ---- *)
HexagonMismatch(e) ==
  LET c == e.obs.corners
      off == IF e.offset = <<>> THEN <<-2, 0>> ELSE e.offset
      side == c[1][2]
  IN CASE e.obs.offset # off -> "offset"
       [] Len(c) # 6 \/ {c[i] : i \in 1..6} # {Times(s, q) : s \in {-1, 1}, q \in {c[1], c[2], c[3]}} -> "corners"
       [] \E i \in 1..6 : c[i] \notin {<<0, side>>, <<0, -side>>, <<side \div 2, side \div 2>>, <<-(side \div 2), side \div 2>>, <<side \div 2, -(side \div 2)>>, <<-(side \div 2), -(side \div 2)>>} -> "regular"
       [] ~(side - e.side \in (-2)..10) -> "width"
       [] e.offset = <<>> /\ ~Armchair(Sites(c, off, (side \div 4) + 2), off) -> "armchair edges"
       [] OTHER -> ""

(* ---- modifiers ---- *)
MassMismatch(e) == IF e.obs = [i \in DOMAIN e.energy |-> e.energy[i] + (IF e.sub = "A" THEN e.delta ELSE IF e.sub = "B" THEN -e.delta ELSE 0)] THEN "" ELSE "masses"
Root(n) == CHOOSE k \in 0..60 : k * k = n
Distance(p, q) == Root(Square(p[1] - q[1]) + Square(p[2] - q[2]) + Square(p[3] - q[3]))
Larger(a, b) == IF a > b THEN a ELSE b
CoulombMismatch(e) == IF e.obs = [i \in DOMAIN e.points |-> Larger(e.cutoff, Distance(e.points[i], e.offset))] THEN "" ELSE "potential"
RECURSIVE SumUpto(_, _)
SumUpto(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumUpto(s, n - 1)
MagneticMismatch(e) ==
  LET n == Len(e.loop)
      flux == SumUpto([i \in 1..n |-> Area2(e.loop[i], e.loop[IF i = n THEN 1 ELSE i + 1])], n)
  IN CASE ~e.obs.complex -> "complex"
       [] \E i \in 1..n : e.obs.size[i] # 0 -> "size of the hopping energies"
       [] \E i \in 1..n : e.obs.back[i] # -e.obs.phases[i] -> "phases of the opposite direction"
       [] SumUpto(e.obs.phases, n) # e.field * flux -> "flux through the loop"
       [] OTHER -> ""
Stretched(e) == [i \in DOMAIN e.bonds |-> Distance(e.bonds[i][1], e.bonds[i][2])]
StrainMismatch(e) ==
  LET to(p) == <<16 * p[1] + e.field * 2 * p[1] * p[2], 16 * p[2] + e.field * (p[1] * p[1] - p[2] * p[2]), 16 * p[3]>>
  IN CASE e.obs.to # [i \in DOMAIN e.points |-> to(e.points[i])] -> "displacement"
       [] e.obs.ratio # Stretched(e) -> "strained hopping energies"
       [] OTHER -> ""
BumpMismatch(e) ==
  CASE e.obs.xy # [i \in DOMAIN e.points |-> FirstTwo(e.points[i])] -> "positions in the plane"
    [] e.obs.r2 # [i \in DOMAIN e.points |-> Square(e.points[i][1] - e.center[1]) + Square(e.points[i][2] - e.center[2])] -> "height"
    [] e.obs.ratio # Stretched(e) -> "strained hopping energies"
    [] OTHER -> ""

Mismatch(e) ==
  IF Refused(e) THEN (IF e.res = "error" THEN "" ELSE "made something which does not exist")
  ELSE IF e.res # "ok" THEN "fails"
  ELSE CASE e.op = "lattice" -> (IF LatticeMismatch(e) # "" THEN LatticeMismatch(e) ELSE MinMismatch(e))
    [] e.op = "hexagon" -> HexagonMismatch(e)
    [] e.op = "mass" -> MassMismatch(e)
    [] e.op = "coulomb" -> CoulombMismatch(e)
    [] e.op = "magnetic" -> MagneticMismatch(e)
    [] e.op = "strain" -> StrainMismatch(e)
    [] e.op = "bump" -> BumpMismatch(e)
    [] e.op = "landau" -> IF e.obs = e.field * e.n THEN "" ELSE "energy of the level"

Init == tid \in 1..Len(Traces) /\ l = 1
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == Mismatch(e)
     IN IF why = "" THEN
           /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, l>>
===============================================================================
