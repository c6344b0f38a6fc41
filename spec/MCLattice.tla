----------------------------- MODULE MCLattice -----------------------------
(* Exhaustive exploration of all short histories of lattice definition calls *)
(* over a small alphabet (valid and invalid arguments), and generator of     *)
(* histories which are replayed against the real library.                    *)
EXTENDS Lattice, Json, Randomization

CONSTANTS MaxOps, Emit
VARIABLES lat, hist, last

E1 == <<<<<<0, 0>>>>>>             \* 1x1 zero
E2 == <<<<<<3, 0>>>>>>
EC == <<<<<<2, 1>>>>>>             \* 1x1 complex: invalid as onsite energy
M2 == <<<<<<1, 0>>, <<2, 1>>>>, <<<<0, 0>>, <<4, 0>>>>>>       \* upper triangular
M2H == <<<<<<1, 0>>, <<0, 5>>>>, <<<<0, -5>>, <<2, 0>>>>>>     \* Hermitian
M2X == <<<<<<1, 0>>, <<0, 5>>>>, <<<<0, 5>>, <<2, 0>>>>>>      \* not Hermitian
M2U == <<<<<<1, 0>>, <<0, 0>>>>, <<<<7, 0>>, <<2, 0>>>>>>      \* lower triangular
R12 == <<<<<<1, 0>>, <<0, 2>>>>>>                              \* 1x2
R21 == <<<<<<1, 0>>>>, <<<<3, 0>>>>>>                          \* 2x1
Names == {"A", "B", ""}
Fams == {"t", "u", ""}
Rels == {Zero3, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 1, 0>>}

SubOps == {[op |-> "add_sub", name |-> n, pos |-> p, kind |-> k.kind, e |-> k.e] :
             n \in Names, p \in {Zero3},
             k \in {[kind |-> "scalar", e |-> E1], [kind |-> "scalar", e |-> E2], [kind |-> "matrix", e |-> M2],
                    [kind |-> "matrix", e |-> M2H], [kind |-> "matrix", e |-> M2X], [kind |-> "matrix", e |-> M2U],
                    [kind |-> "matrix", e |-> EC], [kind |-> "matrix", e |-> R12], [kind |-> "matrix", e |-> <<>>]}}
AliasOps == {[op |-> "add_alias", name |-> n, orig |-> o, pos |-> <<2, 0, 0>>] :
              n \in {"A", "X", "Y", ""}, o \in {"A", "B", "X", "Z"}}
RegOps == {[op |-> "reg_hop", name |-> n, e |-> e, scalar |-> FALSE] :
             n \in Fams, e \in {E2, EC, R12, R21, M2X, <<>>}}
HopOps == {[op |-> "add_hop", rel |-> r, from |-> f, to |-> t, hop |-> h] :
             r \in Rels, f \in {"A", "B", "X"}, t \in {"A", "B", "Z"}, h \in {"t", "u"}}
HopEOps == {[op |-> "add_hop_e", rel |-> r, from |-> f, to |-> t, e |-> e, scalar |-> FALSE] :
             r \in Rels, f \in {"A", "B"}, t \in {"A", "B", "X"}, e \in {E2, EC, R12, R21}}
OffOps == {[op |-> "set_offset", pos |-> p] : p \in {<<2, 0, 0>>, <<1, -2, 0>>, <<3, 0, 0>>, <<0, -3, 0>>}}
NbOps == {[op |-> "min_nb", n |-> 2]}
Ops == SubOps \cup AliasOps \cup RegOps \cup HopOps \cup HopEOps \cup OffOps \cup NbOps

Apply(l, e) ==
  CASE e.op = "add_sub" -> DoAddSub(l, e)
    [] e.op = "add_alias" -> DoAddAlias(l, e)
    [] e.op = "reg_hop" -> DoRegisterHop(l, e)
    [] e.op = "add_hop" -> DoAddHop(l, e)
    [] e.op = "add_hop_e" ->
         (IF SameEnergyFams(l, e.e) = {} THEN DoAddHopE(l, e, "")
          ELSE DoAddHopE(l, e, l.hops[CHOOSE i \in SameEnergyFams(l, e.e) : TRUE].name))
    [] e.op = "set_offset" -> DoSetOffset(l, e)
    [] e.op = "min_nb" -> DoMinNb(l, e)

Init == lat = EmptyLattice(<<<<4, 0, 0>>, <<0, 4, 0>>>>) /\ hist = <<>> /\ last = TRUE
\* in the exhaustive run the history is not recorded: distinct definitions are the states
Next == \E e \in Ops :
          /\ Len(hist) < MaxOps
          /\ lat' = Apply(lat, e).lat
          /\ last' = Apply(lat, e).ok
          /\ hist' = Append(hist, IF Emit THEN e ELSE 0)
Spec == Init /\ [][Next]_<<lat, hist, last>>

\* generator: biased towards calls which are accepted
OkOps == {e \in Ops : Apply(lat, e).ok}
BuildOps == {e \in OkOps : e.op \in {"add_hop", "add_hop_e"}}
GenNext ==
  /\ Len(hist) < MaxOps
  /\ LET coin == RandomElement(1..8)
         pool == IF coin <= 3 /\ BuildOps # {} THEN BuildOps ELSE IF coin <= 6 THEN OkOps ELSE Ops
     IN \E e \in {RandomElement(pool)} :
          /\ lat' = Apply(lat, e).lat
          /\ last' = Apply(lat, e).ok
          /\ hist' = Append(hist, e)
GenSpec == Init /\ [][GenNext]_<<lat, hist, last>>
\* print each complete history (used as a constraint of the simulation)
EmitHistory == (Len(hist) = MaxOps) => PrintT("HIST " \o ToJson(hist))

Integrity == /\ NoDuplicateNames(lat) /\ AliasesResolve(lat) /\ EnergiesHermitian(lat)
             /\ TermsWellFormed(lat) /\ NoDuplicateTerms(lat) /\ NeighborsSymmetric(lat)
\* definitions only grow and rejected calls change nothing
Monotone == [][/\ \A i \in 1..Len(lat.subs) : i <= Len(lat'.subs) /\ lat'.subs[i] = lat.subs[i]
               /\ Len(lat'.hops) >= Len(lat.hops)
               /\ ~last' => lat' = lat]_<<lat, hist, last>>
View == <<lat, Len(hist)>>
=============================================================================
