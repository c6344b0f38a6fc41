----------------------------- MODULE TraceModel -----------------------------
(* Checks recorded histories of model building calls and observations        *)
(* against the specification: every observation has to be the one which      *)
(* follows from the description of the model at that time, whatever was      *)
(* computed, cached, copied, cleared or rejected before.                     *)
EXTENDS Ham, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, lat, slots, cur, cache, held

Ev(t, i) == Traces[t].ev[i]
Elems(f) == {f[i] : i \in DOMAIN f}
SeqIs(seq, set) == Len(seq) = Cardinality(set) /\ Elems(seq) = set

\* the part of an observation about which the property is
Aspect(a) == \E i \in 1..Len(Traces[tid].aspects) : Traces[tid].aspects[i] = a
\* mismatches which belong to the property, in order: the first one found is reported
When(a, why) == IF Aspect(a) THEN why ELSE ""

\* ------------------------------------------------------------------- changes
LatticeOps == {"lattice", "add_sub", "add_alias", "reg_hop", "add_hop", "set_offset", "min_nb"}
ApplyLattice(s, e) ==
  CASE e.op = "lattice" -> Accept(EmptyLattice(e.vecs))
    [] e.op = "add_sub" -> DoAddSub(s, e)
    [] e.op = "add_alias" -> DoAddAlias(s, e)
    [] e.op = "reg_hop" -> DoRegisterHop(s, e)
    [] e.op = "add_hop" -> DoAddHop(s, e)
    [] e.op = "set_offset" -> DoSetOffset(s, e)
    [] e.op = "min_nb" -> DoMinNb(s, e)

Ok(m) == [ok |-> TRUE, m |-> m]
No(m) == [ok |-> FALSE, m |-> m]
ModelOps == {"primitive", "shape", "symmetry", "state_mod", "pos_mod", "onsite_mod", "hop_mod", "site_gen", "hop_gen",
             "lead", "wave", "clear_structure", "clear_ham", "clear_all"}
ApplyModel(m, e) ==
  CASE e.op = "primitive" ->
         (IF (\E i \in 1..3 : e.n[i] <= 0 \/ (i > Len(m.lat.vecs) /\ e.n[i] # 1)) THEN No(m)
          ELSE Ok([m EXCEPT !.prim = e.n]))
    [] e.op = "shape" ->
         (LET off == VAdd(m.base, e.offset) IN
          IF ~ValidShape(e) \/ ~OffsetAllowed(m.lat, off) THEN No(m)
          ELSE Ok([m EXCEPT !.lat.offset = off, !.shape = e]))
    [] e.op = "symmetry" -> Ok([m EXCEPT !.sym = e.n])
    [] e.op \in {"state_mod", "pos_mod"} -> Ok([m EXCEPT !.smods = Append(@, e)])
    [] e.op = "onsite_mod" -> Ok([m EXCEPT !.omods = Append(@, e)])
    [] e.op = "hop_mod" -> Ok([m EXCEPT !.hmods = Append(@, e)])
    [] e.op = "site_gen" ->
         (IF e.name = "" \/ e.name \in SiteNames(m) \/ ~ValidOnsite(e.e) THEN No(m)
          ELSE Ok([m EXCEPT !.smods = Append(@, e)]))
    [] e.op = "hop_gen" ->
         (IF e.name = "" \/ e.name \in HopNames(m) \/ Rows(e.e) = 0 \/ Cols(e.e) = 0 THEN No(m)
          ELSE Ok([m EXCEPT !.smods = Append(@, e)]))
    [] e.op = "lead" ->
         (IF e.dir = 0 \/ Len(m.lat.vecs) = 1 \/ Abs(e.dir) > Len(m.lat.vecs) \/ ~ValidShape(e.shape) THEN No(m)
          ELSE Ok([m EXCEPT !.leads = Append(@, [dir |-> e.dir, shape |-> e.shape])]))
    [] e.op = "wave" -> Ok([m EXCEPT !.k = e.k])
    [] e.op = "clear_structure" -> Ok([m EXCEPT !.smods = <<>>])
    [] e.op = "clear_ham" -> Ok([m EXCEPT !.omods = <<>>, !.hmods = <<>>])
    [] e.op = "clear_all" -> Ok([m EXCEPT !.smods = <<>>, !.omods = <<>>, !.hmods = <<>>])

\* ------------------------------------------------------------- observations
Proj(sys) == [s \in sys.V |-> <<sys.pos[s], sys.sub[s]>>]
Injective(sys) == Cardinality({<<sys.pos[s], sys.sub[s]>> : s \in sys.V}) = Cardinality(sys.V)
OProj(sites) == [i \in 1..Len(sites) |-> <<sites[i].pos, sites[i].sub>>]

\* hoppings between (position, sublattice) pairs; unordered where the direction is meaningless
HopKey(m, fam, p, q) == IF Directionless(m, fam) THEN <<fam, {p, q}>> ELSE <<fam, <<p, q>>>>
SpecHops(m, P, hops) ==
  LET dl == [f \in {h.fam : h \in hops} |-> Directionless(m, f)]
  IN {IF dl[h.fam] THEN <<h.fam, {P[h.a], P[h.b]}>> ELSE <<h.fam, <<P[h.a], P[h.b]>>>> : h \in hops}
GoodFams(m, hops) == \A i \in 1..Len(hops) : hops[i].fam \in HopNames(m)
ObsHops(m, O, hops) ==
  LET dl == [f \in {hops[i].fam : i \in 1..Len(hops)} |-> Directionless(m, f)]
  IN {LET h == hops[i] IN IF dl[h.fam] THEN <<h.fam, {O[h.i], O[h.j]}>> ELSE <<h.fam, <<O[h.i], O[h.j]>>>>
      : i \in 1..Len(hops)}
InBounds(O, hops) == \A i \in 1..Len(hops) : hops[i].i \in DOMAIN O /\ hops[i].j \in DOMAIN O

SitesMismatch(sys, sites) ==
  IF Len(sites) # Cardinality(sys.V) THEN "number of sites"
  ELSE IF Elems(OProj(sites)) # Elems(Proj(sys)) THEN "sites" ELSE ""

HopsMismatch(m, sys, o) ==
  LET O == OProj(o.sites) IN
  IF ~InBounds(O, o.hops) THEN "hopping to a site which does not exist"
  ELSE IF ~GoodFams(m, o.hops) THEN "unknown hopping family"
  ELSE LET oh == ObsHops(m, O, o.hops) IN
       IF Cardinality(oh) # Len(o.hops) THEN "duplicate hoppings"
       ELSE IF o.csr.size # Len(o.sites) \/ ~o.csr.same THEN "matrix of the hoppings"
       ELSE IF oh # SpecHops(m, Proj(sys), sys.hops) THEN "hoppings" ELSE ""

SpecBounds(P, bounds) == {<<h.shift, h.fam, P[h.a], P[h.b]>> : h \in bounds}
BoundsMismatch(m, sys, o) ==
  LET O == OProj(o.sites)
      B == 1..Len(o.bounds)
  IN IF \E b \in B : ~InBounds(O, o.bounds[b].hops) \/ ~GoodFams(m, o.bounds[b].hops)
     THEN "boundary hopping to a site which does not exist"
     ELSE LET ob == UNION {{LET h == o.bounds[b].hops[i] IN <<o.bounds[b].shift, h.fam, O[h.i], O[h.j]>>
                            : i \in 1..Len(o.bounds[b].hops)} : b \in B}
          IN IF Cardinality(ob) # FoldLeft(LAMBDA n, b : n + Len(b.hops), 0, o.bounds) THEN "duplicate boundary hoppings"
             ELSE IF ob # SpecBounds(Proj(sys), sys.bounds) THEN "boundary hoppings"
             ELSE IF \E b \in B : o.bounds[b].csr.size # Len(o.sites) \/ ~o.bounds[b].csr.same THEN "matrix of the boundary hoppings" ELSE ""

\* each site has as many Hamiltonian indices as orbitals, all different, and there are no others
IndicesMismatch(m, sys, o) ==
  LET norb == [n \in {sys.sub[s] : s \in sys.V} |-> Rows(SiteEnergy(m, n))] IN
  IF \E i \in 1..Len(o.sites) : Len(o.sites[i].ham) # norb[o.sites[i].sub] THEN "number of orbitals"
  ELSE IF o.hamsize # HamSize(m, sys) THEN "size of the Hamiltonian"
  ELSE IF UNION {Elems(o.sites[i].ham) : i \in 1..Len(o.sites)} # 1..o.hamsize THEN "Hamiltonian indices"
  ELSE IF o.hamnnz # MapThenSumSet(LAMBDA n : norb[n] * norb[n] * Cardinality({s \in sys.V : sys.sub[s] = n}), DOMAIN norb)
                     + 2 * MapThenSumSet(LAMBDA f : Rows(HopEnergy(m, f)) * Cols(HopEnergy(m, f))
                                                    * Cardinality({h \in sys.hops : h.fam = f}), {h.fam : h \in sys.hops})
  THEN "number of non-zeros" ELSE ""

SystemMismatch(m, sys, o) ==
  LET a == SitesMismatch(sys, o.sites) IN
  IF a # "" THEN a
  ELSE LET b == When("hops", HopsMismatch(m, sys, o)) IN IF b # "" THEN b
  ELSE LET c == When("bounds", BoundsMismatch(m, sys, o)) IN IF c # "" THEN c
  ELSE When("indices", IndicesMismatch(m, sys, o))

\* ---------------------------------------------------------------- callbacks
LogOf(e, kinds) == SelectSeq(IF e.haslog THEN e.log ELSE <<>>, LAMBDA x : x.cb \in kinds)
SeenKey(x) == [cb |-> x.cb, tag |-> x.tag, sub |-> x.sub, seen |-> Elems(x.seen)]
StateLogMismatch(sys, e) ==
  LET log == IF Aspect("log") THEN SelectSeq(LogOf(e, {"state"}), LAMBDA x : x.seen # <<>>) ELSE <<>>
      got == {SeenKey(log[i]) : i \in 1..Len(log)}
  IN IF log = <<>> THEN ""
     ELSE IF got # sys.log \/ Cardinality(got) # Len(log)
             \/ \E i \in 1..Len(log) : Len(log[i].seen) # Cardinality(Elems(log[i].seen))
     THEN "what a site state modifier sees" ELSE ""
\* the system which a generator sees
GenLogMismatch(m, sys, e) ==
  LET log == IF Aspect("log") THEN LogOf(e, {"sitegen", "hopgen"}) ELSE <<>> IN
  IF log = <<>> THEN ""
  ELSE IF Len(log) # Len(sys.seen) THEN "generators were not called once each"
  ELSE IF \E i \in 1..Len(log) :
            \/ log[i].tag # sys.seen[i].tag
            \/ SitesMismatch(sys.seen[i], log[i].sys.sites) # ""
            \/ HopsMismatch(m, sys.seen[i], log[i].sys) # ""
            \/ BoundsMismatch(m, sys.seen[i], log[i].sys) # ""
       THEN "what a generator sees" ELSE ""
OnsiteLogMismatch(m, sys, e) ==
  LET log == IF Aspect("hamlog") THEN LogOf(e, {"onsite"}) ELSE <<>> IN
  IF log = <<>> THEN ""
  ELSE IF \E i \in 1..Len(log) : ~log[i].okshape THEN "shape of the onsite energy array"
  ELSE IF \E i \in 1..Len(log) : log[i].seen # <<>> /\ log[i].norb # Rows(SiteEnergy(m, log[i].sub)) THEN "orbitals of the onsite energy array"
  ELSE LET got(t) == {<<log[i].sub, log[i].seen[k]>> : <<i, k>> \in
                        {<<i, k>> \in (1..Len(log)) \X (1..Cardinality(sys.V)) : log[i].tag = t /\ k <= Len(log[i].seen)}}
           len(t) == FoldLeft(LAMBDA n, x : n + (IF x.tag = t THEN Len(x.seen) ELSE 0), 0, log)
           want == {<<sys.sub[s], sys.pos[s]>> : s \in sys.V}
       IN IF \E t \in {m.omods[i].tag : i \in 1..Len(m.omods)} : got(t) # want \/ len(t) # Cardinality(sys.V)
          THEN "what an onsite modifier sees" ELSE ""
HopLogMismatch(m, sys, e) ==
  LET log == IF Aspect("hamlog") THEN LogOf(e, {"hop"}) ELSE <<>> IN
  IF log = <<>> THEN ""
  ELSE IF \E i \in 1..Len(log) : ~log[i].okshape THEN "shape of the hopping energy array"
  ELSE IF \E i \in 1..Len(log) : log[i].fam \notin HopNames(m) THEN "name of the hopping family"
  ELSE IF \E i \in 1..Len(log) : LET E == HopEnergy(m, log[i].fam) IN log[i].rows # Rows(E) \/ log[i].cols # Cols(E)
  THEN "orbitals of the hopping energy array"
  ELSE LET dl == [f \in HopNames(m) |-> Directionless(m, f)]
           key(f, p, q) == IF dl[f] THEN <<f, {p, q}>> ELSE <<f, <<p, q>>>>
           got(t) == UNION {{key(log[i].fam, log[i].seen[k][1], log[i].seen[k][2]) : k \in 1..Len(log[i].seen)}
                            : i \in {j \in 1..Len(log) : log[j].tag = t}}
           len(t) == FoldLeft(LAMBDA n, x : n + (IF x.tag = t THEN Len(x.seen) ELSE 0), 0, log)
           want == {key(h.fam, sys.pos[h.a], sys.pos[h.b]) : h \in sys.hops}
                   \cup {key(h.fam, sys.pos[h.a], VSub(sys.pos[h.b], h.shift)) : h \in sys.bounds}
           num == Cardinality(sys.hops) + Cardinality(sys.bounds)
       IN IF Cardinality(want) # num THEN ""        \* two hoppings in the same place
          ELSE IF \E t \in {x.tag : x \in {y \in Elems(m.hmods) : y.log}} : got(t) # want \/ len(t) # num
          THEN "what a hopping modifier sees" ELSE ""

\* --------------------------------------------------------------- Hamiltonian
OwnersOk(o, n) == \A i \in 1..Len(o.owner) : o.owner[i][1] \in 1..n
MatrixMismatch(elements, P, h, owner, O) ==
  LET want == {<<P[x[1]], x[2], P[x[3]], x[4], x[5], x[6]>> : x \in elements}
      nz == {i \in 1..Len(h.entries) : h.entries[i][3] # 0 \/ h.entries[i][4] # 0}
      got == {LET x == h.entries[i] IN <<O[owner[x[1]][1]], owner[x[1]][2], O[owner[x[2]][1]], owner[x[2]][2], x[3], x[4]>> : i \in nz}
  IN IF Cardinality({<<h.entries[i][1], h.entries[i][2]>> : i \in 1..Len(h.entries)}) # Len(h.entries) THEN "repeated matrix element"
     ELSE IF got # want THEN "matrix elements" ELSE ""
\* the Bloch phases have single precision: with large energies the error could reach the integers
TooLarge(m, sys, elements) ==
  /\ m.k # Zero3 /\ sys.bounds # {}
  /\ \E x \in elements : Abs(x[5]) > 2000 \/ Abs(x[6]) > 2000
HamMismatch(m, sys, ham, o) ==
  IF Aspect("type") /\ o.type # ham.type THEN "scalar type"
  ELSE IF o.rows # ham.size \/ o.cols # ham.size THEN "size of the Hamiltonian"
  ELSE LET a == SitesMismatch(sys, o.sites) IN
       IF a # "" THEN a
       ELSE IF ~Aspect("ham") THEN ""
       ELSE IF ~OwnersOk(o, Len(o.sites)) THEN "Hamiltonian index without an orbital"
       ELSE MatrixMismatch(ham.elements, Proj(sys), o, o.owner, OProj(o.sites))

\* --------------------------------------------------------------------- leads
LeadSys(m, st) == [V |-> st.X, pos |-> st.pos, sub |-> [x \in st.X |-> m.lat.subs[x[4]].orig],
                   hops |-> st.hops, bounds |-> {}]
\* from a cell of the lead to the next one inwards; where the energy of the hopping is given in the other
\* direction, it is the conjugate of the hopping from that cell to this one
H1Terms(m, st) ==
  UNION {UNION {LET E == HopEnergy(m, h.fam)
                    inner == VSub(st.pos[h.b], st.shift)
                    x == IF h.conj THEN HopValue(m, h.fam, inner, st.pos[h.a], rc[1], rc[2], E[rc[1]][rc[2]])
                         ELSE HopValue(m, h.fam, st.pos[h.a], inner, rc[1], rc[2], E[rc[1]][rc[2]])
                IN {IF h.conj THEN <<h.a, rc[2], h.b, rc[1], x.v[1], 0 - x.v[2], x.cx>>
                    ELSE <<h.a, rc[1], h.b, rc[2], x.v[1], x.v[2], x.cx>>} : rc \in Elements(HopEnergy(m, h.fam), FALSE)}
         : h \in st.bounds}
LeadMismatch(m, ld, st, sys, o, sites) ==
  LET ls == LeadSys(m, st)
      n == Len(o.indices)
      SO == OProj(sites)
      LO == OProj(o.sys.sites)
      terms == HamTerms(m, ls)
      dynamic == \E t \in terms : t.cx
      a == SystemMismatch(m, ls, [o.sys EXCEPT !.bounds = <<>>])
  IN IF n # Cardinality(st.X) \/ Len(LO) # n THEN "number of lead sites"
     ELSE IF \E i \in 1..n : o.indices[i] \notin DOMAIN SO THEN "lead index out of range"
     ELSE IF a # "" THEN "lead: " \o a
     ELSE IF \E i \in 1..n : LO[i] # <<VAdd(SO[o.indices[i]][1], st.shift), SO[o.indices[i]][2]>> THEN "lead indices"
     ELSE IF Len(o.sys.bounds) # 1 \/ o.sys.bounds[1].shift # st.shift THEN "lead boundary"
     ELSE IF ~InBounds(LO, o.sys.bounds[1].hops) THEN "lead boundary hopping to a site which does not exist"
     ELSE LET P == Proj(ls)
              want == {<<h.fam, P[h.a], P[h.b]>> : h \in st.bounds}
              bh == o.sys.bounds[1].hops
              got == {<<bh[i].fam, LO[bh[i].i], LO[bh[i].j]>> : i \in 1..Len(bh)}
          IN IF got # want \/ Len(bh) # Cardinality(st.bounds) THEN "lead boundary hoppings"
             ELSE IF ~OwnersOk(o, n) THEN "lead: Hamiltonian indices"
             ELSE IF o.h0.rows # HamSize(m, ls) \/ o.h0.cols # o.h0.rows \/ o.h1.rows # o.h0.rows \/ o.h1.cols # o.h0.rows
             THEN "size of the lead Hamiltonian"
             ELSE LET b == MatrixMismatch(HamElements(ls.V, terms), P, o.h0, o.owner, LO) IN
                  IF b # "" THEN "h0: " \o b
                  ELSE LET c == MatrixMismatch({<<x[1], x[2], x[3], x[4], x[5], x[6]>> :
                                                  x \in {y \in H1Terms(m, st) : y[5] # 0 \/ y[6] # 0}}, P, o.h1, o.owner, LO)
                       IN IF c # "" THEN "h1: " \o c ELSE ""
LeadsBad(m, structures) == \E i \in DOMAIN structures : \E t \in HamTerms(m, LeadSys(m, structures[i])) : t.bad
\* the leads have the scalar type of the model: a modifier which turns out to be complex
\* only for the positions of the lead is outside of the specification
LeadsDynamic(m, ham, structures) ==
  ~StaticComplex(m) /\ ham.type \in {"float", "double"}
  /\ \E i \in DOMAIN structures :
       \/ \E t \in HamTerms(m, LeadSys(m, structures[i])) : t.cx
       \/ \E x \in H1Terms(m, structures[i]) : x[7]

\* --------------------------------------------------------------------- verdict
V(w) == [why |-> w, skip |-> ""]
Skip(w) == [why |-> "", skip |-> w]
Expect(e, fails, mismatch) ==
  IF fails THEN V(IF e.res = "ok" THEN "an error is expected" ELSE "")
  ELSE IF e.res # "ok" THEN V("failed although the model is valid")
  ELSE V(mismatch)

ReadOps == {"system", "ham", "leads", "eval", "report", "flags", "nearest", "range", "expanded", "registries", "model_lattice"}
Dist2(p, q) == LET d == VSub(p, q) IN VDot(d, d)

\* `c`: [key, sys, sites] -- the structure for the present description of the model, and the
\* order of sites in which the code has shown it
Observe(m, e, c) ==
  LET sys == c.sys
      sites == c.sites
      bad == sys.err # ""
  IN CASE e.op = "flags" ->
            V(IF e.res # "ok" THEN "failed"
              ELSE IF e.obs.multi # IsMultiOrbital(m) THEN "is_multiorbital"
              ELSE IF e.obs.double # IsDouble(m) THEN "is_double"
              ELSE IF StaticComplex(m) /\ ~e.obs.complex THEN "is_complex"
              ELSE IF ~StaticComplex(m) /\ e.obs.complex
                      /\ (\A i \in 1..Len(m.hmods) : m.hmods[i].kind # "phase")
                      /\ (\A j \in 1..Len(m.omods) : m.omods[j].kind # "mix") THEN "is_complex" ELSE "")
       [] e.op = "registries" ->
            V(IF e.res # "ok" THEN "failed"
              ELSE IF ~SeqIs(e.obs.s, {[name |-> n, e |-> SiteEnergy(m, n)] : n \in SiteNames(m)}) THEN "site registry"
              ELSE IF ~SeqIs(e.obs.h, {[name |-> n, e |-> HopEnergy(m, n)] : n \in HopNames(m)}) THEN "hopping registry" ELSE "")
       [] e.op = "model_lattice" ->
            V(IF e.res # "ok" THEN "failed"
              ELSE IF e.obs.offset # m.lat.offset THEN "offset of the model's lattice"
              ELSE IF e.obs.nsub # Len(m.lat.subs) \/ e.obs.nhop # Len(m.lat.hops) \/ e.obs.minnb # m.lat.minnb
              THEN "the model's lattice" ELSE "")
       [] sys.skip # "" -> Skip(sys.skip)
       [] ~bad /\ ~Injective(sys) -> Skip("two sites in the same place")
       [] e.op = "system" ->
            Expect(e, bad, LET a == SystemMismatch(m, sys, e.obs) IN IF a # "" THEN a
                           ELSE LET b == StateLogMismatch(sys, e) IN IF b # "" THEN b
                           ELSE GenLogMismatch(m, sys, e))
       [] e.op = "ham" ->
            (IF bad THEN Expect(e, TRUE, "")
             ELSE LET ham == BuildHam(m, sys)
                      dynamic == ~StaticComplex(m) /\ ham.type \in {"cfloat", "cdouble"}
                  IN IF TooLarge(m, sys, ham.elements) THEN Skip("phases of large energies") ELSE
                     Expect(e, ham.err # "",
                       LET a == HamMismatch(m, sys, ham, e.obs) IN IF a # "" THEN a
                       ELSE LET s == StateLogMismatch(sys, e) IN IF s # "" THEN s
                       ELSE LET g == GenLogMismatch(m, sys, e) IN IF g # "" THEN g
                       ELSE IF dynamic THEN ""
                       ELSE LET o == OnsiteLogMismatch(m, sys, e) IN IF o # "" THEN o
                       ELSE HopLogMismatch(m, sys, e)))
       [] e.op \in {"leads", "eval", "report"} ->
            (IF bad THEN Expect(e, TRUE, "")
             ELSE LET ham == BuildHam(m, sys)
                      nbt == NeighborTable(m.lat)
                      st == [i \in 1..Len(m.leads) |-> LeadStructure(m, nbt, m.leads[i], sys.plans[i])]
                      off == \E i \in 1..Len(m.smods) : m.smods[i].op = "pos_mod"
                      gone == \E i \in 1..Len(m.smods) : m.smods[i].op = "state_mod" /\ i > FirstGenerator(m)
                  IN IF m.leads # <<>> /\ (off \/ gone \/ HasSymmetry(m)) THEN Skip("leads of a modified structure")
                     ELSE IF ham.err # "" \/ e.op = "report" THEN Expect(e, ham.err # "", "")
                     ELSE IF LeadsDynamic(m, ham, st) THEN Skip("complex only in a lead")
                     ELSE IF LeadsBad(m, st) THEN Expect(e, TRUE, "")
                     ELSE IF e.op = "eval" THEN Expect(e, FALSE, "")
                     ELSE Expect(e, FALSE,
                            LET a == SitesMismatch(sys, e.obs.sites) IN IF a # "" THEN a
                            ELSE IF Len(e.obs.leads) # Len(m.leads) THEN "number of leads"
                            ELSE IF \E i \in 1..Len(m.leads) : e.obs.leads[i].h0.type # ham.type \/ e.obs.leads[i].h1.type # ham.type
                            THEN "scalar type of a lead"
                            ELSE LET w == [i \in 1..Len(m.leads) |-> LeadMismatch(m, m.leads[i], st[i], sys, e.obs.leads[i], e.obs.sites)]
                                     B == {i \in 1..Len(m.leads) : w[i] # ""}
                                 IN IF B = {} THEN "" ELSE w[MinOf(B)]))
       [] bad -> Expect(e, TRUE, "")
       [] sites = <<>> -> V("")                \* the order of the sites is not known
       [] e.op = "nearest" ->
            (LET cand == {i \in 1..Len(sites) : e.sub = "" \/ sites[i].sub = e.sub} IN
             Expect(e, cand = {}, IF e.obs \notin cand THEN "nearest site is not of the sublattice"
                                  ELSE IF \E i \in cand : Dist2(sites[i].pos, e.pos) < Dist2(sites[e.obs].pos, e.pos)
                                  THEN "there is a nearer site" ELSE ""))
       [] e.op = "range" ->
            (LET cand == {i \in 1..Len(sites) : e.sub = "" \/ sites[i].sub = e.sub} IN
             IF cand = {} THEN V(IF e.res = "ok" /\ (e.sub \notin SiteNames(m) \/ e.obs[1] <= e.obs[2]) THEN "range of a sublattice without sites" ELSE "")
             ELSE Expect(e, FALSE, IF e.obs[1]..e.obs[2] # cand THEN "sublattice range" ELSE ""))
       [] e.op = "expanded" ->
            Expect(e, FALSE, IF Len(e.obs) # HamSize(m, sys) THEN "size of the expanded positions"
                             ELSE IF \E i \in 1..Len(sites) : \E h \in Elems(sites[i].ham) : e.obs[h] # sites[i].pos
                             THEN "expanded positions" ELSE "")

NoCache == [key |-> <<>>, sys |-> Failed("never"), sites |-> <<>>]
Fresh(m) == [key |-> StructKey(m), sys |-> BuildStructure(m), sites |-> <<>>]
NeedsSystem == {"system", "ham", "leads", "eval", "report", "nearest", "range", "expanded"}

Init == tid \in 1..Len(Traces) /\ l = 1 /\ lat = EmptyLattice(<<>>) /\ slots = <<>> /\ cur = "m" /\ cache = <<>> /\ held = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Reject_(why) == /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o Ev(tid, l).op \o "): " \o why)
                /\ l' = 0 /\ UNCHANGED <<tid, lat, slots, cur, cache, held>>
Skip_(why) == /\ PrintT("SKIP " \o ToString(tid) \o " event " \o ToString(l) \o ": " \o why)
              /\ l' = 0 /\ UNCHANGED <<tid, lat, slots, cur, cache, held>>
Done == l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
Step == l' = l + 1 /\ UNCHANGED tid /\ Done
Keep == UNCHANGED held
Verdict(ok, e) == IF ok = (e.res = "ok") THEN "" ELSE IF ok THEN "rejected a valid call" ELSE "accepted an invalid call"

Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l) IN
     CASE e.op \in LatticeOps ->
            (LET r == ApplyLattice(lat, e) IN
             IF Verdict(r.ok, e) # "" THEN Reject_(Verdict(r.ok, e))
             ELSE Step /\ lat' = r.lat /\ Keep /\ UNCHANGED <<slots, cur, cache>>)
       [] e.op = "model" ->
            (IF e.res # "ok" THEN Reject_("failed")
             ELSE Step /\ slots' = Put(slots, e.m, NewModel(lat)) /\ cur' = e.m
                  /\ cache' = Put(cache, e.m, NoCache) /\ Keep /\ UNCHANGED lat)
       [] e.op = "copy" ->
            (IF e.res # "ok" THEN Reject_("failed")
             ELSE Step /\ slots' = Put(slots, e.to, slots[cur]) /\ cache' = Put(cache, e.to, cache[cur]) /\ Keep /\ UNCHANGED <<lat, cur>>)
       [] e.op = "use" -> Step /\ cur' = e.m /\ Keep /\ UNCHANGED <<lat, slots, cache>>
       [] e.op \in ModelOps ->
            (LET r == ApplyModel(slots[cur], e) IN
             IF Verdict(r.ok, e) # "" THEN Reject_(Verdict(r.ok, e))
             ELSE Step /\ slots' = [slots EXCEPT ![cur] = r.m] /\ Keep /\ UNCHANGED <<lat, cur, cache>>)
       [] e.op \in ReadOps ->
            (LET m == slots[cur]
                 c == IF e.op \notin NeedsSystem \/ cache[cur].key = StructKey(m) THEN cache[cur] ELSE Fresh(m)
                 v == Observe(m, e, c)
             IN IF v.why # "" THEN Reject_(v.why)
                ELSE IF v.skip # "" THEN Skip_(v.skip)
                ELSE /\ Step
                     /\ cache' = [cache EXCEPT ![cur] =
                          IF e.op = "system" /\ e.res = "ok" THEN [c EXCEPT !.sites = e.obs.sites] ELSE c]
                     /\ Keep /\ UNCHANGED <<lat, slots, cur>>)
       \* results which the user keeps do not change, whatever happens to the model
       [] e.op = "hold" ->
            (IF e.res = "ok" THEN Step /\ held' = Put(held, e.h, e.obs) /\ UNCHANGED <<lat, slots, cur, cache>>
             ELSE Step /\ held' = Put(held, e.h, 0) /\ UNCHANGED <<lat, slots, cur, cache>>)
       [] e.op = "held" ->
            (IF e.res # "ok" THEN (IF held[e.h] = 0 THEN Step /\ UNCHANGED <<lat, slots, cur, cache, held>> ELSE Reject_("failed"))
             ELSE IF held[e.h] # e.obs THEN Reject_("a result has changed after the fact")
             ELSE Step /\ UNCHANGED <<lat, slots, cur, cache, held>>)
       [] OTHER -> Reject_("unknown event")
Spec == Init /\ [][Next]_<<tid, l, lat, slots, cur, cache, held>>
=============================================================================
