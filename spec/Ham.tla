-------------------------------- MODULE Ham --------------------------------
(* The Hamiltonian of a system: the sum of all onsite and hopping terms,     *)
(* after the modifiers, plus the boundary terms with their Bloch phase.      *)
EXTENDS Structure

\* ------------------------------------------------------------------ modifiers
\* value of one element after all modifiers: [v, cx: was complex at some point, bad: NaN or INF]
OnsiteStep(mod, name, p, r, c, x) ==
  IF ~Matches(mod.sub, name) THEN x
  ELSE LET l == LinAt(mod.lin, p)
           y == CASE mod.kind = "add" -> (IF r = c THEN CAdd(x.v, <<l * r, 0>>) ELSE x.v)
                  [] mod.kind = "mul" -> <<l * x.v[1], l * x.v[2]>>
                  [] mod.kind = "mix" -> (IF r < c THEN CAdd(x.v, <<l * mod.w[1], l * mod.w[2]>>)
                                          ELSE IF r > c THEN CAdd(x.v, <<l * mod.w[1], 0 - l * mod.w[2]>>)
                                          ELSE x.v)
                  [] OTHER -> x.v
       IN [v |-> y, cx |-> x.cx \/ y[2] # 0, bad |-> x.bad \/ (mod.kind \in {"nan", "inf"} /\ l # 0)]
OnsiteValue(m, name, p, r, c, v) ==
  FoldLeft(LAMBDA x, mod : OnsiteStep(mod, name, p, r, c, x), [v |-> v, cx |-> FALSE, bad |-> FALSE], m.omods)

HopStep(mod, fam, p1, p2, r, c, x) ==
  IF ~Matches(mod.fam, fam) THEN x
  ELSE LET l == LinAt(mod.lin1, p1) + LinAt(mod.lin2, p2)
           y == CASE mod.kind = "add" -> CAdd(x.v, <<l * (2 * r + c - 2), 0>>)
                  [] mod.kind = "mul" -> <<l * x.v[1], l * x.v[2]>>
                  [] mod.kind = "phase" -> CMul(x.v, IPow(l))
       IN [v |-> y, cx |-> x.cx \/ y[2] # 0, bad |-> FALSE]
HopValue(m, fam, p1, p2, r, c, v) ==
  FoldLeft(LAMBDA x, mod : HopStep(mod, fam, p1, p2, r, c, x), [v |-> v, cx |-> FALSE, bad |-> FALSE], m.hmods)

\* ------------------------------------------------------------------- the terms
\* k is in units of pi/8 and all lattice vectors are multiples of 4: the phase of a displacement is a power of i
Phase(k, shift) == IPow(VDot(k, shift) \div 4)
\* elements of a family which can be different from zero
Elements(E, sparse) == {rc \in (1..Rows(E)) \X (1..Cols(E)) : ~sparse \/ E[rc[1]][rc[2]] # CZero}

HamTerms(m, sys) ==
  LET sparseO == \A i \in 1..Len(m.omods) : m.omods[i].kind = "mul"
      sparseH == \A i \in 1..Len(m.hmods) : m.hmods[i].kind \in {"mul", "phase"}
      names == {sys.sub[s] : s \in sys.V}
      OE == [n \in names |-> SiteEnergy(m, n)]
      OI == [n \in names |-> Elements(OE[n], sparseO)]
      fams == {h.fam : h \in sys.hops} \cup {h.fam : h \in sys.bounds}
      HE == [f \in fams |-> HopEnergy(m, f)]
      HI == [f \in fams |-> Elements(HE[f], sparseH)]
      on == UNION {{LET n == sys.sub[s]
                        x == OnsiteValue(m, n, sys.pos[s], rc[1], rc[2], OE[n][rc[1]][rc[2]])
                    IN [src |-> s, a |-> s, r |-> rc[1], b |-> s, c |-> rc[2], v |-> x.v, cx |-> x.cx, bad |-> x.bad,
                        shift |-> Zero3, fam |-> "", conj |-> FALSE]
                    : rc \in OI[sys.sub[s]]} : s \in sys.V}
      hop(h, shift) ==
        UNION {LET x == HopValue(m, h.fam, sys.pos[h.a], VSub(sys.pos[h.b], shift), rc[1], rc[2], HE[h.fam][rc[1]][rc[2]])
                   y == CMul(x.v, Phase(m.k, shift))
               IN {[src |-> h.a, a |-> h.a, r |-> rc[1], b |-> h.b, c |-> rc[2], v |-> y, cx |-> x.cx, bad |-> FALSE,
                    shift |-> shift, fam |-> h.fam, conj |-> FALSE],
                   [src |-> h.b, a |-> h.b, r |-> rc[2], b |-> h.a, c |-> rc[1], v |-> CConj(y), cx |-> x.cx, bad |-> FALSE,
                    shift |-> VNeg(shift), fam |-> h.fam, conj |-> TRUE]}
               : rc \in HI[h.fam]}
  IN on \cup UNION {hop(h, Zero3) : h \in sys.hops} \cup UNION {hop(h, h.shift) : h \in sys.bounds}

\* (terms are a set: two different terms always differ in one of the fields)
SumC(S) == MapThenFoldSet(CAdd, CZero, LAMBDA t : t.v, LAMBDA T : CHOOSE t \in T : TRUE, S)
\* the non-zero elements: {<<site, orbital, site, orbital, re, im>>}
HamElements(sites, terms) ==
  LET row == [s \in sites |-> {t \in terms : t.a = s}]
      sums(s) == LET keys == {<<t.r, t.b, t.c>> : t \in row[s]} IN
                 {LET v == SumC({t \in row[s] : t.r = key[1] /\ t.b = key[2] /\ t.c = key[3]})
                  IN <<s, key[1], key[2], key[3], v[1], v[2]>> : key \in keys}
  IN {e \in UNION {sums(s) : s \in sites} : e[5] # 0 \/ e[6] # 0}

\* ----------------------------------------------------------------- scalar type
EnergyComplex(m) ==
  \/ \E i \in 1..Len(m.lat.subs) : ~IsRealM(m.lat.subs[i].e)
  \/ \E i \in 1..Len(m.lat.hops) : ~IsRealM(m.lat.hops[i].e)
  \/ \E i \in 1..Len(m.smods) : IsGenerator(m.smods[i]) /\ ~IsRealM(m.smods[i].e)
StaticComplex(m) ==
  \/ EnergyComplex(m) \/ HasSymmetry(m)
  \/ \E i \in 1..Len(m.omods) : m.omods[i].complex
  \/ \E i \in 1..Len(m.hmods) : m.hmods[i].complex
IsDouble(m) == (\E i \in 1..Len(m.omods) : m.omods[i].double) \/ (\E i \in 1..Len(m.hmods) : m.hmods[i].double)
IsMultiOrbital(m) ==
  \/ \E n \in SiteNames(m) : Rows(SiteEnergy(m, n)) # 1
  \/ \E n \in HopNames(m) : LET E == HopEnergy(m, n) IN Rows(E) # 1 \/ Cols(E) # 1
TypeName(double, complex) == IF double THEN (IF complex THEN "cdouble" ELSE "double")
                             ELSE (IF complex THEN "cfloat" ELSE "float")

\* sum of the sizes of the onsite matrices
HamSize(m, sys) == MapThenSumSet(LAMBDA n : Rows(SiteEnergy(m, n)) * Cardinality({s \in sys.V : sys.sub[s] = n}),
                                 {sys.sub[s] : s \in sys.V})

BuildHam(m, sys) ==
  LET terms == HamTerms(m, sys)
      cx == StaticComplex(m) \/ \E t \in terms : t.cx
  IN [err |-> IF \E t \in terms : t.bad THEN "invalid values" ELSE "",
      type |-> TypeName(IsDouble(m), cx), size |-> HamSize(m, sys),
      elements |-> HamElements(sys.V, terms)]
=============================================================================
