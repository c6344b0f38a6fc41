------------------------------ MODULE Builders ------------------------------
(* How lattices and models are put together in Python: everything which is given reaches the core once and in
   order; the first part which is refused ends the call.
   A part of a model: [list |-> <<parts>>] or [kind, id, list |-> "no"]; a call for the core of a lattice: <<name, arguments ...>> *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

IsLeaf(p) == "kind" \in DOMAIN p
Accepted == {"shape", "symmetry", "primitive", "state", "position", "onsite", "hopping", "site_gen", "hop_gen"}
RECURSIVE Flat(_)
Flat(parts) == IF parts = <<>> THEN <<>>
               ELSE (IF IsLeaf(Head(parts)) THEN <<Head(parts)>> ELSE Flat(Head(parts).list)) \o Flat(Tail(parts))
\* how many parts are in front of the first refused one
FirstBad(flat) == IF \E i \in DOMAIN flat : flat[i].kind \notin Accepted
                  THEN CHOOSE i \in DOMAIN flat : flat[i].kind \notin Accepted /\ \A j \in 1..(i - 1) : flat[j].kind \in Accepted
                  ELSE Len(flat) + 1
Given(parts) == SubSeq(Flat(parts), 1, FirstBad(Flat(parts)) - 1)
AllGood(parts) == FirstBad(Flat(parts)) > Len(Flat(parts))

(* ---- models: [added |-> <<leaves>>, leads |-> <<<<direction, contact>>>>] ---- *)
OfKind(m, k) == SelectSeq(m.added, LAMBDA p : p.kind = k)
Ids(parts) == [i \in DOMAIN parts |-> parts[i].id]
ShapeOf(m) == LET s == OfKind(m, "shape") IN IF s = <<>> THEN -1 ELSE s[Len(s)].id
ModifiersOf(m) == Ids(OfKind(m, "state")) \o Ids(OfKind(m, "position")) \o Ids(OfKind(m, "onsite")) \o Ids(OfKind(m, "hopping"))

(* ---- lattices: [calls |-> <<...>>, offset, min] ---- *)
NamesOf(calls, what) == {calls[k][2] : k \in {k \in DOMAIN calls : calls[k][1] \in what}}
Sublattices(calls) == NamesOf(calls, {"add_sublattice", "add_alias"})
Energies(calls) == NamesOf(calls, {"register_hopping_energy"})
\* is the call accepted after the others
Fits(calls, c) ==
  CASE c[1] = "add_sublattice" -> c[2] # "" /\ c[2] \notin Sublattices(calls)
    [] c[1] = "add_alias" -> c[2] \notin Sublattices(calls) /\ c[3] \in NamesOf(calls, {"add_sublattice"})
    [] c[1] = "register_hopping_energy" -> c[2] \notin Energies(calls)
    [] c[1] = "add_hopping" -> c[3] \in Sublattices(calls) /\ c[4] \in Sublattices(calls) /\ (c[5][1] = "name" => c[5][2] \in Energies(calls))
RECURSIVE Calls(_, _)
\* the calls which are done: all up to the first one which is refused
Calls(done, new) == IF new = <<>> THEN done ELSE IF Fits(done, Head(new)) THEN Calls(Append(done, Head(new)), Tail(new)) ELSE done
AllFit(done, new) == Len(Calls(done, new)) = Len(done) + Len(new)
=============================================================================
