--------------------------- MODULE TraceContainers ---------------------------
(* Recorded histories of the real containers *)
EXTENDS Containers, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Ev(t, i) == Traces[t].ev[i]

\* st: [hb, names, cs, reg, kind, mat]
Nothing == [hb |-> NewBlocks(0, 0), names |-> <<>>, cs |-> <<>>, reg |-> <<>>, kind |-> "site",
            rows |-> <<>>, cols |-> 0]

\* arguments which the operations require (the others are not defined)
InRange(v, n) == \A i \in DOMAIN v : 0 <= v[i] /\ v[i] < n
After(s, e) ==
  CASE e.op = "hb_new" -> [s EXCEPT !.hb = NewBlocks(e.n, Len(e.names)), !.names = e.names]
    [] e.op = "hb_add" -> [s EXCEPT !.hb = AddHop(@, e.f + 1, e.r, e.c)]
    [] e.op = "hb_append" -> IF Len(e.rows) # Len(e.cols) THEN s
                             ELSE [s EXCEPT !.hb = AppendHops(@, e.f + 1, e.rows, e.cols, e.herm)]
    [] e.op = "hb_filter" -> [s EXCEPT !.hb = FilterHops(@, e.keep)]
    [] e.op = "hb_sites" -> [s EXCEPT !.hb = AddSites(@, e.k)]
    [] e.op = "cs_new" -> [s EXCEPT !.cs = <<>>]
    [] e.op = "cs_add" -> [s EXCEPT !.cs = AddGroup(@, e.id, e.norb, e.k)]
    [] e.op = "cs_filter" -> [s EXCEPT !.cs = FilterGroups(@, e.keep)]
    [] e.op = "reg_new" -> [s EXCEPT !.reg = <<>>, !.kind = e.kind]
    [] e.op = "reg_add" -> IF CanRegister(s.kind, s.reg, e.name, e.energy)
                           THEN [s EXCEPT !.reg = Register(s.kind, @, e.name, e.energy)] ELSE s
    [] e.op = "mat" -> [s EXCEPT !.rows = [r \in DOMAIN e.rows |-> SortedRow(e.rows[r])], !.cols = e.cols]
    [] OTHER -> s

Refused(s, e) ==
  CASE e.op = "hb_append" -> Len(e.rows) # Len(e.cols)
    [] e.op = "reg_add" -> ~CanRegister(s.kind, s.reg, e.name, e.energy)
    [] e.op = "cs_verify" -> ~Verified(s.cs, e.n)
    [] e.op = "cs_start" -> \A g \in DOMAIN s.cs : s.cs[g].norb # e.norb
    [] e.op = "reg_id" -> e.name \notin Names(s.reg)
    [] e.op = "reg_at" -> e.id >= Len(s.reg)
    [] OTHER -> FALSE
\* what depends on groups without sites is not defined
Undefined(s, e) ==
  CASE e.op = "cs_verify" -> Verified(s.cs, e.n) # Verified(Occupied(s.cs), e.n)
    [] e.op = "cs_start" -> \/ \E g \in DOMAIN s.cs : s.cs[g].num = 0 /\ s.cs[g].norb = e.norb
                            \/ ~Verified(s.cs, Size(s.cs))
    [] e.op = "cs_add" -> \E g \in DOMAIN s.cs : s.cs[g].id = e.id /\ s.cs[g].norb # e.norb
    [] OTHER -> FALSE

(* ---- observations ---- *)
Iterated(gs, o) ==      \* the groups as they are iterated over, those without sites left out
  [g \in DOMAIN gs |-> <<gs[g].id, gs[g].num, gs[g].norb, SysStart(gs, g), SysStart(gs, g + 1), HamStart(gs, g), HamStart(gs, g + 1), gs[g].num * gs[g].norb>>]
BlocksMismatch(hb, names, o) ==
  CASE o.n # hb.n -> "number of sites"
    [] Len(o.blocks) # Len(hb.blocks) -> "number of families"
    [] \E f \in DOMAIN hb.blocks : ~SameBag(o.blocks[f], hb.blocks[f]) -> "hoppings"
    [] o.ids # [f \in DOMAIN hb.blocks |-> f - 1] -> "family ids"
    [] o.sizes # [f \in DOMAIN hb.blocks |-> Len(hb.blocks[f])] -> "sizes"
    [] o.nnz # Nnz(hb) -> "number of hoppings"
    [] o.neighbors # [i \in 1..hb.n |-> Neighbors(hb, i - 1)] -> "neighbors"
    [] Ran(o.map) # {<<names[f], f - 1>> : f \in DOMAIN names} -> "names"
    [] UniqueHops(hb) /\ (o.csr_n # hb.n \/ Len(o.csr) # Nnz(hb) \/ Ran(o.csr) # HopMatrix(hb)) -> "matrix of the families"
    [] OTHER -> ""
GroupsMismatch(cs, o) ==
  LET occ == Occupied(cs)
      seen == SelectSeq(o.groups, LAMBDA g : g[2] # 0)
  IN CASE seen # Iterated(occ, o) -> "groups"
       [] o.size # Size(cs) -> "number of sites"
       [] o.all # Decompressed(cs) -> "sublattice of each site"
       [] OTHER -> ""
EntryMismatch(x, o) == o.name # x.name \/ o.energy # x.energy
RegMismatch(reg, o) ==
  CASE o.size # Len(reg) -> "size"
    [] o.names # [i \in DOMAIN reg |-> reg[i].name] -> "names"
    [] o.energies # [i \in DOMAIN reg |-> reg[i].energy] -> "energies"
    [] Len(o.map) # Len(reg) \/ Ran(o.map) # {<<reg[i].name, i - 1>> : i \in DOMAIN reg} -> "name map"
    [] o.nonzero # AnyNonzero(reg) -> "nonzero energy"
    [] o.complex # AnyComplex(reg) -> "complex terms"
    [] o.orbitals # AnyOrbitals(reg) -> "several orbitals"
    [] OTHER -> ""

\* a sparse matrix and everything which goes over its elements
Zeroed(v) == v[3] # <<0, 0>>
MatMismatch(s, o) ==
  LET all == Stored(s.rows)
  IN CASE o.shape # <<Len(s.rows), s.cols>> -> "shape"
       [] o.stored # all -> "elements of the matrix"
       [] o.each # all -> "for_each"
       [] o.byrow # [r \in DOMAIN s.rows |-> s.rows[r]] -> "for_each_in_row"
       [] o.max # MaxPerRow(s.rows) -> "max_nnz_per_row"
       [] o.ell_shape # <<Len(s.rows), s.cols>> -> "shape of the ELL matrix"
       [] ~SameBag(SelectSeq(o.ell, Zeroed), SelectSeq(all, Zeroed)) -> "elements of the ELL matrix"
       [] \E k \in DOMAIN o.ell : ~(0 <= o.ell[k][2] /\ o.ell[k][2] < s.cols) -> "indices of the ELL matrix"
       [] o.ell_nnz # Len(o.ell) \/ o.ell_nnz < Len(all) -> "number of elements of the ELL matrix"
       [] OTHER -> ""
\* sizes of the pieces and the elements which are visited
BufferMismatch(s, e) ==
  LET all == Stored(s.rows)
      o == e.obs
      ps == Pieces(all, e.size)
      seen == SelectSeq(o.pieces, LAMBDA p : p.n > 0)
  IN CASE o.visited # [k \in DOMAIN all |-> <<all[k][1], all[k][2], all[k][3], (k - 1) % e.size>>] -> "elements given to the buffer"
       [] Len(seen) # Len(ps) \/ \E k \in DOMAIN ps : seen[k].n # Len(ps[k]) -> "sizes of the buffers"
       [] \E k \in DOMAIN ps : seen[k].again # [i \in DOMAIN ps[k] |-> <<ps[k][i][1], ps[k][i][2], ps[k][i][3], i - 1>>] -> "elements taken from the buffer"
       [] \E k \in DOMAIN o.pieces : o.pieces[k].n = 0 /\ o.pieces[k].again # <<>> -> "elements taken from an empty buffer"
       [] OTHER -> ""
SliceMismatch(s, e) ==
  LET inside == {i \in 1..Len(s.rows) : e.start < i /\ i <= e.end}
      o == e.obs
      all == SelectSeq(Stored(s.rows), LAMBDA v : v[1] + 1 \in inside)
  IN IF \/ ~SameBag(SelectSeq(o.ell, Zeroed), SelectSeq(all, Zeroed))
        \/ \E k \in DOMAIN o.ell : o.ell[k][1] + 1 \notin inside
     THEN "rows of the ELL slice" ELSE ""

Mismatch(s, t, e) ==      \* s before, t after
  IF Undefined(s, e) THEN ""
  ELSE IF Refused(s, e) /\ e.res # "error" THEN "accepted an invalid call"
  ELSE IF ~Refused(s, e) /\ e.res # "ok" THEN "rejected a valid call"
  ELSE IF e.op = "cs_start" /\ e.res = "ok" /\ e.obs # FirstWith(s.cs, e.norb) THEN "first site with the number of orbitals"
  ELSE IF e.op = "reg_id" /\ e.res = "ok" /\ (e.obs + 1 \notin DOMAIN s.reg \/ s.reg[e.obs + 1].name # e.name) THEN "id of a name"
  ELSE IF e.op = "reg_at" /\ e.res = "ok" /\ EntryMismatch(s.reg[e.id + 1], e.obs) THEN "entry of an id"
  ELSE IF e.op = "buffered" THEN BufferMismatch(s, e)
  ELSE IF e.op = "rows" THEN SliceMismatch(s, e)
  ELSE IF e.op = "pieces" THEN (IF e.obs # Pieces(e.v, e.size) THEN "slices of a vector" ELSE "")
  ELSE IF e.op \in {"hb_look", "hb_copy"} THEN BlocksMismatch(t.hb, t.names, e.obs)
  ELSE IF e.op \in {"cs_look", "cs_copy"} THEN GroupsMismatch(t.cs, e.obs)
  ELSE IF e.op = "reg_look" THEN RegMismatch(t.reg, e.obs)
  ELSE IF e.op = "mat" THEN MatMismatch(t, e.obs)
  ELSE ""

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Nothing
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         s == After(st, e)
         why == Mismatch(st, s, e)
     IN IF why = "" THEN
           /\ st' = s /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
