---------------------------- MODULE TraceLattice ----------------------------
(* Checks recorded histories of lattice definition calls against Lattice.tla. *)
EXTENDS Lattice, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, lat

Ev(t, i) == Traces[t].ev[i]

\* the family which the code used for a hopping given by its energy, when several match:
\* the one in which the next observation shows the term
HasTerm(f, t) == \E k \in 1..Len(f.terms) : f.terms[k].rel = t.rel /\ f.terms[k].from = t.from /\ f.terms[k].to = t.to
FamOf(s, e, i) ==
  LET cand == SameEnergyFams(s, e.e)
      next == IF i < Len(Traces[tid].ev) THEN Ev(tid, i + 1) ELSE [op |-> "none"]
      seen == IF next.op = "lat_obs"
              THEN {c \in cand : c <= Len(next.obs.hops) /\ HasTerm(next.obs.hops[c], e)} ELSE {}
  IN IF cand = {} THEN "" ELSE s.hops[CHOOSE c \in (IF seen = {} THEN cand ELSE seen) : TRUE].name

Apply(s, e, i) ==
  CASE e.op = "lattice" -> Accept(EmptyLattice(e.vecs))
    [] e.op = "add_sub" -> DoAddSub(s, e)
    [] e.op = "add_alias" -> DoAddAlias(s, e)
    [] e.op = "reg_hop" -> DoRegisterHop(s, e)
    [] e.op = "add_hop" -> DoAddHop(s, e)
    [] e.op = "add_hop_e" -> DoAddHopE(s, e, FamOf(s, e, i))
    [] e.op \in {"set_offset", "with_offset"} -> DoSetOffset(s, e)
    [] e.op \in {"min_nb", "with_min_nb"} -> DoMinNb(s, e)
    [] e.op = "calc_pos" -> [ok |-> e.name = "" \/ HasSub(s, e.name), lat |-> s]
    [] OTHER -> Accept(s)       \* observations

Elems(f) == {f[i] : i \in DOMAIN f}
Originals(s) == {i \in 1..Len(s.subs) : s.subs[i].orig = s.subs[i].name}
RegEntries(r) == {<<r[i].name, r[i].e>> : i \in 1..Len(r)}

ObsMismatch(s, e) ==
  LET o == e.obs IN
  CASE e.op = "lat_obs" ->
         (CASE o.vecs # s.vecs \/ o.ndim # Len(s.vecs) -> "lattice vectors"
            [] o.nsub # Len(s.subs) \/ Len(o.subs) # Len(s.subs) -> "number of sublattices"
            [] \E i \in 1..Len(s.subs) : o.subs[i].name # s.subs[i].name -> "sublattice names"
            [] \E i \in 1..Len(s.subs) : o.subs[i].pos # s.subs[i].pos -> "sublattice positions"
            [] \E i \in 1..Len(s.subs) : o.subs[i].e # s.subs[i].e -> "onsite energy"
            [] \E i \in 1..Len(s.subs) : o.subs[i].orig # s.subs[i].orig -> "alias"
            [] o.nhop # Len(s.hops) \/ Len(o.hops) # Len(s.hops) -> "number of hopping families"
            [] \E i \in 1..Len(s.hops) : o.hops[i].name # s.hops[i].name -> "hopping names"
            [] \E i \in 1..Len(s.hops) : o.hops[i].e # s.hops[i].e -> "hopping energy"
            [] \E i \in 1..Len(s.hops) : Len(o.hops[i].terms) # Len(s.hops[i].terms) -> "number of hopping terms"
            [] \E i \in 1..Len(s.hops) : Elems(o.hops[i].terms) # Elems(s.hops[i].terms) -> "hopping terms"
            [] o.offset # s.offset -> "offset"
            [] o.minnb # s.minnb -> "min neighbors"
            [] o.maxh # MaxHoppings(s) -> "max hoppings"
            [] o.diag # HasDiagonal(s) -> "diagonal terms"
            [] o.onsite # HasOnsite(s) -> "onsite terms"
            [] ~o.sregok \/ Len(o.sreg) # Cardinality(Originals(s))
               \/ RegEntries(o.sreg) # {<<s.subs[i].name, s.subs[i].e>> : i \in Originals(s)} -> "site registry"
            [] ~o.hregok \/ Len(o.hreg) # Len(s.hops)
               \/ \E i \in 1..Len(s.hops) : o.hreg[i].name # s.hops[i].name \/ o.hreg[i].e # s.hops[i].e -> "hopping registry"
            [] Len(o.cell) # Len(s.subs) \/ {o.cell[i].name : i \in 1..Len(o.cell)} # {s.subs[i].name : i \in 1..Len(s.subs)}
               -> "sites of the unit cell"
            [] \E i \in 1..Len(o.cell) : o.cell[i].norb # Rows(Sub(s, o.cell[i].name).e) -> "orbitals of the unit cell"
            [] \E i \in 1..Len(o.cell) :
                 \/ Len(o.cell[i].nb) # Cardinality(Neighbors(s, o.cell[i].name))
                 \/ Elems(o.cell[i].nb) # Neighbors(s, o.cell[i].name) -> "neighbors in the unit cell"
            [] OTHER -> "")
    [] e.op = "calc_pos" -> (IF o # CalcPosition(s, e.idx, e.name) THEN "position" ELSE "")
    [] e.op = "translate" ->
         (LET c == LatticeCoord(s.vecs, e.pos) IN
          IF \E i \in 1..Len(c.num) : Abs(o[i]) > 100000000 \/ o[i] * c.den # e.scale * c.num[i]
          THEN "lattice coordinates" ELSE "")
    [] OTHER -> ""

Init == tid \in 1..Len(Traces) /\ l = 1 /\ lat = EmptyLattice(<<>>)
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         r == Apply(lat, e, l)
         why == IF r.ok # (e.res = "ok")
                THEN (IF r.ok THEN "rejected a valid call" ELSE "accepted an invalid call")
                ELSE IF e.res = "ok" /\ e.hasobs THEN ObsMismatch(r.lat, e) ELSE ""
     IN IF why = "" THEN
           /\ lat' = r.lat /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, lat>>
Spec == Init /\ [][Next]_<<tid, l, lat>>
\* the definitions which the real code went through satisfy the properties of a definition
Integrity == /\ NoDuplicateNames(lat) /\ AliasesResolve(lat) /\ EnergiesHermitian(lat)
             /\ TermsWellFormed(lat) /\ NoDuplicateTerms(lat) /\ NeighborsSymmetric(lat)
=============================================================================
