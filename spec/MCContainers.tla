---------------------------- MODULE MCContainers ----------------------------
(* The containers represent a system of labelled sites: whatever happens, their indices refer to the
   same sites.  Sites have labels which never change; the containers know only indices. *)
EXTENDS Containers, TLC

CONSTANTS MaxSites, MaxOps, Faulty
Subs == {0, 1}           \* sublattices (1 has two orbitals)
Norb(s) == s + 1
Families == 1..2
VARIABLES sites, edges, next, hb, cs, ops
vars == <<sites, edges, next, hb, cs, ops>>
\* sites: sequence of [label, sub]; edges: set of <<family, from label, to label>>

Init == sites = <<>> /\ edges = {} /\ next = 0 /\ hb = NewBlocks(0, 2) /\ cs = <<>> /\ ops = 0

Grow(sub, k) ==
  /\ Len(sites) + k <= MaxSites
  /\ sites' = sites \o [i \in 1..k |-> [label |-> next + i, sub |-> sub]]
  /\ next' = next + k
  /\ hb' = AddSites(hb, k)
  /\ cs' = AddGroup(cs, sub, Norb(sub), k)
  /\ UNCHANGED edges

\* (a family whose energy is not Hermitian keeps the direction)
Connect(f, a, b) ==
  /\ a # b
  /\ LET h == Oriented(a, b, f = 1)
     IN edges' = edges \union {<<f, sites[h[1] + 1].label, sites[h[2] + 1].label>>}
  /\ hb' = AppendHops(hb, f, <<a>>, <<b>>, f = 1 \/ "direction" \in Faulty)
  /\ UNCHANGED <<sites, cs, next>>

FilterWith(keep) ==
  LET kept == {sites[i].label : i \in {k \in DOMAIN sites : keep[k]}}
      late == [hb EXCEPT !.n = Cardinality({k \in DOMAIN sites : keep[k]}),
                         !.blocks = [f \in DOMAIN hb.blocks |->
                            LET s == SelectSeq(hb.blocks[f], LAMBDA h : keep[h[1] + 1] /\ keep[h[2] + 1])
                            IN [i \in 1..Len(s) |-> <<NewIndex(keep, s[i][1]), s[i][2]>>]]]
      half == [hb EXCEPT !.n = Cardinality({k \in DOMAIN sites : keep[k]}),
                         !.blocks = [f \in DOMAIN hb.blocks |->
                            LET s == SelectSeq(hb.blocks[f], LAMBDA h : keep[h[1] + 1])
                            IN [i \in 1..Len(s) |-> <<NewIndex(keep, s[i][1]), NewIndex(keep, s[i][2])>>]]]
  IN /\ sites' = SelectSeq([i \in DOMAIN sites |-> [sites[i] EXCEPT !.label = IF keep[i] THEN @ ELSE 0]], LAMBDA s : s.label # 0)
     /\ edges' = {e \in edges : e[2] \in kept /\ e[3] \in kept}
     /\ hb' = IF "columns" \in Faulty THEN late ELSE IF "one_end" \in Faulty THEN half ELSE FilterHops(hb, keep)
     /\ cs' = IF "groups" \in Faulty
              THEN [g \in DOMAIN cs |-> [cs[g] EXCEPT !.num = Cardinality({k \in 1..Len(keep) : HamStart(cs, g) < k /\ k <= HamStart(cs, g) + cs[g].num /\ keep[k]})]]
              ELSE FilterGroups(cs, keep)
     /\ UNCHANGED next

Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E s \in Subs, k \in 1..2 : Grow(s, k)
           \/ \E f \in Families, a, b \in 0..(Len(sites) - 1) : Connect(f, a, b)
           \/ \E keep \in [1..Len(sites) -> BOOLEAN] : FilterWith(keep)
Spec == Init /\ [][Next]_vars

Label(i) == sites[i + 1].label
Represents ==
  /\ hb.n = Len(sites)
  /\ \A h \in Ran(AllHops(hb)) : h[1] < hb.n /\ h[2] < hb.n
  /\ \A f \in Families : {<<f, Label(h[1]), Label(h[2])>> : h \in Ran(hb.blocks[f])} = {e \in edges : e[1] = f}
  /\ Nnz(hb) = Cardinality(edges)
  /\ Decompressed(cs) = [i \in DOMAIN sites |-> sites[i].sub]
HermitianUpper == \A h \in Ran(hb.blocks[1]) : h[1] < h[2]
NeighborsAgree ==
  \A i \in 0..(hb.n - 1) : Neighbors(hb, i) = Cardinality({e \in edges : e[2] = Label(i)}) + Cardinality({e \in edges : e[3] = Label(i)})
OrbitalsAgree == HamSize(cs) = SumOver(sites, LAMBDA s : Norb(s.sub))
=============================================================================
