----------------------------- MODULE TraceSpectra -----------------------------
(* Recorded histories of the Python eigensolver (and of systems, leads and the conversion to kwant). *)
EXTENDS Spectra, Json, IOUtils, TLC
S == INSTANCE Solver
R == INSTANCE Results

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Ev(t, i) == Traces[t].ev[i]

\* given: with a strategy which returns given pairs and counts its attempts
Nothing == [sites |-> <<>>, pairs |-> <<>>, given |-> FALSE, vectors |-> <<>>, k |-> <<0, 0>>, fresh |-> FALSE, fails |-> 0]
New == {"solver", "set_model"}
Queries == {"solve", "values", "pairs", "eigenvalues", "probability", "dos", "ldos", "spatial"}

Abs2(z) == z[1] * z[1] + z[2] * z[2]
SitesOf(e) ==
  LET group(s) == CHOOSE g \in DOMAIN e.groups : LET before == TotalOf(g - 1, LAMBDA h : e.groups[h][2]) IN before < s /\ s <= before + e.groups[g][2]
  IN [s \in DOMAIN e.sites |-> [x |-> e.sites[s][1], y |-> e.sites[s][2], sub |-> e.groups[group(s)][1], norb |-> e.groups[group(s)][3]]]
PairsOf(e, n) ==
  IF e.blocks # <<>> THEN FlattenSeq([b \in DOMAIN e.blocks |-> BlockPairs(n, e.blocks[b])])
  ELSE [i \in DOMAIN e.pairs |-> [value |-> e.pairs[i][1], w |-> e.pairs[i][2], weight |-> [r \in 1..n |-> 2 * Abs2(e.pairs[i][3][r])]]]
Adopt(s, e) ==
  LET sites == SitesOf(e) IN
  [s EXCEPT !.sites = sites, !.pairs = PairsOf(e, Size(sites)), !.given = (e.blocks = <<>>),
            !.vectors = [i \in DOMAIN e.pairs |-> e.pairs[i][3]], !.k = <<0, 0>>, !.fresh = FALSE]

Padded(k) == IF Len(k) = 1 THEN <<k[1], 0>> ELSE k
Times60(k) == [i \in DOMAIN k |-> 60 * k[i]]
PathK(e) == [i \in DOMAIN R!PathOf(e.points, e.step) |-> Padded(R!PathOf(e.points, e.step)[i])]

Fails(s, e) == IF e.op = "bands" THEN s.given /\ s.fails > 0 ELSE e.op \in Queries /\ s.given /\ ~s.fresh /\ s.fails > 0
After(s, e) ==
  CASE e.op \in New -> Adopt(s, e)
    [] e.op = "fail" -> [s EXCEPT !.fails = e.times]
    [] e.op = "clear" -> [s EXCEPT !.fresh = FALSE]
    [] e.op = "wave" -> [s EXCEPT !.fresh = FALSE, !.k = Padded(Times60(e.k))]
    [] e.op = "bands" -> IF Fails(s, e) THEN [s EXCEPT !.k = PathK(e)[1], !.fails = @ - 1, !.fresh = FALSE]
                         ELSE [s EXCEPT !.k = PathK(e)[Len(PathK(e))], !.fresh = TRUE]
    [] e.op \in Queries -> IF Fails(s, e) THEN [s EXCEPT !.fails = @ - 1] ELSE [s EXCEPT !.fresh = TRUE]
    [] OTHER -> s
Attempts(s, e) == IF ~s.given THEN 0
                  ELSE IF e.op = "bands" THEN (IF Fails(s, e) THEN 1 ELSE Len(PathK(e)))
                  ELSE IF e.op \in Queries THEN S!Attempts([fresh |-> s.fresh], TRUE) ELSE 0

StructureOk(s, o) == o.n = Len(s.sites) /\ o.sites = [i \in DOMAIN s.sites |-> <<s.sites[i].x, s.sites[i].y>>] /\ o.sub = [i \in DOMAIN s.sites |-> s.sites[i].sub]

PairsMismatch(s, o) ==
  LET order == SortSeq([i \in DOMAIN s.pairs |-> i], LAMBDA a, b : LET x == ValueAt(s.pairs[a], s.k)  y == ValueAt(s.pairs[b], s.k) IN x < y \/ (x = y /\ a < b))
      at(v) == {i \in DOMAIN order : o.values[i] = v}
      vectors(I) == {<<o.vectors[i], Cardinality({j \in I : o.vectors[j] = o.vectors[i]})>> : i \in I}
      mine(v) == {i \in DOMAIN s.pairs : ValueAt(s.pairs[i], s.k) = v}
      expected(I) == {<<s.vectors[i], Cardinality({j \in I : s.vectors[j] = s.vectors[i]})>> : i \in I}
  IN CASE o.values # Values(s.pairs, s.k) -> "eigenvalues"
       [] s.given /\ \E i \in DOMAIN order : vectors(at(o.values[i])) # expected(mine(o.values[i])) -> "eigenvectors"
       [] OTHER -> ""
EigenvaluesMismatch(s, e) ==
  LET o == e.obs
      ps == Sorted(s.pairs, s.k)
      vs == Values(s.pairs, s.k)
      rows == Rows(s.sites, CHOOSE i \in Closest(s.sites, e.at, -1) : TRUE)
      expected(i) == LET g == Run(vs, i, 1) IN (27720 * Total([r \in 1..Size(s.sites) |-> IF r \in rows THEN WeightIn(ps, g, r) ELSE 0])) \div Cardinality(g)
  IN CASE o.values # vs -> "eigenvalues"
       [] e.form = "none" /\ o.probability # <<>> -> "probability which was not asked for"
       [] e.form # "none" /\ o.probability # [i \in DOMAIN ps |-> expected(i)] -> "probability at the site"
       [] OTHER -> ""
\* the levels whose probability is asked for
Wanted(s, e) ==
  LET vs == Values(s.pairs, s.k) IN
  IF e.scalar THEN (IF e.reduce = 0 THEN {e.n[1] + 1} ELSE {i \in DOMAIN vs : Near(vs[i], vs[e.n[1] + 1], e.reduce)})
  ELSE {e.n[i] + 1 : i \in DOMAIN e.n}
ProbabilityMismatch(s, e) ==
  LET ps == Sorted(s.pairs, s.k)
      data == [r \in 1..Size(s.sites) |-> WeightIn(ps, Wanted(s, e), r)]
  IN IF ~StructureOk(s, e.obs) THEN "sites of the map" ELSE IF e.obs.data # Reduced(s.sites, data) THEN "probability" ELSE ""
LdosMismatch(s, e) ==
  LET o == e.obs
      rows == LET site == CHOOSE i \in Closest(s.sites, e.at, e.subid) : TRUE IN [k \in 1..s.sites[site].norb |-> FirstRow(s.sites, site) + k - 1]
      of(r) == [t \in DOMAIN e.energies |-> LocalDos(s.pairs, s.k, e.energies[t], r)]
      sum == [t \in DOMAIN e.energies |-> TotalOf(Len(rows), LAMBDA k : of(rows[k])[t])]
  IN CASE o.energies # e.energies -> "energies"
       [] e.reduce /\ (o.ldos # <<sum>> \/ o.ndim # 1) -> "local density of states"
       [] ~e.reduce /\ o.ldos # [k \in DOMAIN rows |-> of(rows[k])] -> "local density of states of the orbitals"
       [] OTHER -> ""
SpatialMismatch(s, e) ==
  LET data == [r \in 1..Size(s.sites) |-> LocalDos(s.pairs, s.k, e.energies[1], r)]
  IN IF ~StructureOk(s, e.obs) THEN "sites of the map" ELSE IF e.obs.data # Reduced(s.sites, data) THEN "spatial density of states" ELSE ""
DosMismatch(s, e) ==
  IF e.obs.energies # e.energies THEN "energies"
  ELSE IF e.obs.dos # [t \in DOMAIN e.energies |-> Dos(s.pairs, s.k, e.energies[t])] THEN "density of states" ELSE ""
BandsMismatch(s, e) ==
  LET o == e.obs IN
  CASE o.path # R!PathOf(e.points, e.step) -> "path"
    [] o.bands # [i \in DOMAIN PathK(e) |-> Values(s.pairs, PathK(e)[i])] -> "bands"
    [] OTHER -> ""
ResultMismatch(s, e) ==
  CASE e.op = "values" -> (IF e.obs.values # Values(s.pairs, s.k) \/ e.obs.again # e.obs.values THEN "eigenvalues" ELSE "")
    [] e.op = "pairs" -> PairsMismatch(s, e.obs)
    [] e.op = "eigenvalues" -> EigenvaluesMismatch(s, e)
    [] e.op = "probability" -> ProbabilityMismatch(s, e)
    [] e.op = "dos" -> DosMismatch(s, e)
    [] e.op = "ldos" -> LdosMismatch(s, e)
    [] e.op = "spatial" -> SpatialMismatch(s, e)
    [] e.op = "bands" -> BandsMismatch(s, e)
    [] OTHER -> ""
QueryMismatch(s, e) ==
  CASE e.obs.attempts # Attempts(s, e) -> IF e.obs.attempts > Attempts(s, e) THEN "solved again although the results are known" ELSE "not solved"
    [] e.obs.failed # Fails(s, e) -> "failure of the strategy"
    [] e.obs.failed -> ""
    [] OTHER -> ResultMismatch(s, e)

Zeroed(r) == [k \in 1..Cardinality(r) |-> (CHOOSE x \in r : \A y \in r : x <= y) + k - 2]
DegenerateMismatch(e) ==
  LET rs == {r \in Runs([i \in DOMAIN e.values |-> 2 * e.values[i]], e.tol) : Cardinality(r) > 1}
      sorted == SetToSortSeq(rs, LAMBDA a, b : Zeroed(a)[1] < Zeroed(b)[1])
  IN IF e.obs.groups # [k \in DOMAIN sorted |-> Zeroed(sorted[k])] THEN "groups of degenerate states" ELSE ""
ReduceMismatch(s, e) ==
  LET n == Size(s.sites)
      bySite == Len(e.data) = Len(s.sites)
      expected == IF bySite THEN e.data ELSE Reduced(s.sites, e.data)
  IN IF ~StructureOk(s, e.obs) THEN "sites of the map" ELSE IF e.obs.data # expected THEN "sums over the orbitals" ELSE
     IF e.obs.expanded # [r \in 1..n |-> <<s.sites[SiteOf(s.sites, r)].x, s.sites[SiteOf(s.sites, r)].y>>] THEN "expanded positions" ELSE ""
ReduceInvalid(s, e) == e.op = "reduce" /\ Len(e.data) # Len(s.sites) /\ Len(e.data) # Size(s.sites)
LeadPath(e) == [i \in 1..((e.stop - e.start) \div e.step + 1) |-> e.start + (i - 1) * e.step]
LeadMismatch(e) ==
  IF e.obs.path # LeadPath(e) THEN "path" ELSE IF e.obs.bands # [i \in DOMAIN LeadPath(e) |-> LeadBand(e.blocks, LeadPath(e)[i])] THEN "bands of the lead" ELSE ""
\* the k levels which are closest to sigma (in quarters)
ArpackMismatch(e) ==
  LET far(i) == Abs(4 * e.values[i] - e.sigma)
      chosen == {i \in DOMAIN e.values : Cardinality({j \in DOMAIN e.values : far(j) < far(i)}) < e.k}
      order == SetToSortSeq(chosen, LAMBDA a, b : e.values[a] < e.values[b])
  IN IF e.obs.values # [n \in DOMAIN order |-> e.values[order[n]]] THEN "levels close to the given value"
     ELSE IF e.obs.vectors # [n \in DOMAIN order |-> [i \in DOMAIN e.values |-> IF i = order[n] THEN 1 ELSE 0]] THEN "their states" ELSE ""
KwantMismatch(s, e) ==
  LET o == e.obs
      norb == [i \in DOMAIN s.sites |-> s.sites[i].norb]
  IN CASE o.h # e.h \/ o.plain # e.h -> "Hamiltonian"
       [] o.entries # e.h \/ o.entries0 # e.h0 -> "hopping of two sites"
       [] o.refused # 2 -> "accepted a part of the sites"
       [] o.to # norb \/ o.from # norb -> "orbitals of the sites"
       [] o.contact # e.contact \/ o.h0 # e.h0 \/ o.h1 # e.h1 -> "lead"
       [] o.pos # [i \in DOMAIN s.sites |-> <<s.sites[i].x, s.sites[i].y>>] -> "positions"
       [] OTHER -> ""

Mismatch(s, e) ==
  IF ReduceInvalid(s, e) THEN (IF e.res = "error" THEN "" ELSE "accepted data of the wrong size")
  ELSE IF e.res # "ok" THEN "rejected a valid call"
  ELSE IF e.op \in New THEN (IF ~e.obs.same \/ e.obs.sites # Len(SitesOf(e)) \/ e.obs.size # Size(SitesOf(e)) THEN "model of the solver" ELSE "")
  ELSE IF e.op \in Queries \/ e.op = "bands" THEN QueryMismatch(s, e)
  ELSE IF e.op = "degenerate" THEN DegenerateMismatch(e)
  ELSE IF e.op = "reduce" THEN ReduceMismatch(s, e)
  ELSE IF e.op = "lead" THEN LeadMismatch(e)
  ELSE IF e.op = "arpack" THEN ArpackMismatch(e)
  ELSE IF e.op = "kwant" THEN KwantMismatch(s, e)
  ELSE ""

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Nothing
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == Mismatch(st, e)
     IN IF why = "" THEN
           /\ st' = After(st, e) /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
