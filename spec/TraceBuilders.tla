--------------------------- MODULE TraceBuilders ---------------------------
EXTENDS Builders, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st       \* [lats |-> lattices, models |-> models]
Ev(t, i) == Traces[t].ev[i]

\* with the energy which is taken if none is given
Sub(a) == IF Len(a) = 4 /\ a[4] # "" THEN <<"add_alias", a[1], a[4], a[2]>> ELSE <<"add_sublattice", a[1], a[2], IF Len(a) < 3 THEN <<"number", <<0>>>> ELSE a[3]>>
Core(e) == CASE e.how = "sublattices" -> [i \in DOMAIN e.items |-> Sub(e.items[i])]
             [] e.how = "aliases" -> [i \in DOMAIN e.items |-> <<"add_alias">> \o e.items[i]]
             [] e.how = "hoppings" -> [i \in DOMAIN e.items |-> <<"add_hopping">> \o e.items[i]]
             [] e.how = "energies" -> [i \in DOMAIN e.sorted |-> <<"register_hopping_energy">> \o e.sorted[i]]
NewLattice(e) == [calls |-> <<>>, offset |-> <<0, 0, 0>>, min |-> 1, vectors |-> e.vectors]
SetAt(s, i, v) == [s EXCEPT ![i] = v]
Changed(lat, e) == IF e.what = "offset" THEN [lat EXCEPT !.offset = e.value] ELSE [lat EXCEPT !.min = e.number]
ValueFits(e) == e.what = "min" \/ \A c \in {1, 2, 3} : e.value[c] \in -9..9
\* what should happen: the new state and whether the call is accepted
After(s, e) ==
  CASE e.op = "lattice" -> [ok |-> TRUE, st |-> [s EXCEPT !.lats = Append(@, NewLattice(e))]]
    [] e.op = "build" -> LET lat == s.lats[e.of + 1] IN [ok |-> AllFit(lat.calls, Core(e)), st |-> [s EXCEPT !.lats[e.of + 1].calls = Calls(lat.calls, Core(e))]]
    [] e.op = "set" -> IF ~ValueFits(e) THEN [ok |-> FALSE, st |-> s] ELSE [ok |-> TRUE, st |-> [s EXCEPT !.lats[e.of + 1] = Changed(s.lats[e.of + 1], e)]]
    [] e.op = "with" -> IF ~ValueFits(e) THEN [ok |-> FALSE, st |-> s] ELSE [ok |-> TRUE, st |-> [s EXCEPT !.lats = Append(@, Changed(s.lats[e.of + 1], e))]]
    [] e.op = "model" -> [ok |-> AllGood(e.parts), st |-> IF AllGood(e.parts) THEN [s EXCEPT !.models = Append(@, [of |-> e.of, added |-> Given(e.parts), leads |-> <<>>])] ELSE s]
    [] e.op = "add" -> [ok |-> AllGood(e.parts), st |-> [s EXCEPT !.models[e.m + 1].added = @ \o Given(e.parts)]]
    [] e.op = "lead" -> [ok |-> TRUE, st |-> [s EXCEPT !.models[e.m + 1].leads = Append(@, <<e.direction, e.contact>>)]]
    [] e.op = "values" -> [ok |-> TRUE, st |-> s]
Seen(s) == [lats |-> s.lats,
            models |-> [i \in DOMAIN s.models |-> LET m == s.models[i] IN
              [lattice |-> m.of, added |-> Ids(m.added), shape |-> ShapeOf(m), modifiers |-> ModifiersOf(m), leads |-> m.leads, of |-> [k \in DOMAIN m.leads |-> <<k - 1, m.of>>], system |-> m.of]]]
Mismatch(s, e) ==
  LET a == After(s, e)
      x == Seen(a.st)
      o == e.obs
  IN CASE o.ok # a.ok -> IF a.ok THEN "rejected a valid call" ELSE "accepted an invalid call"
       [] o.now.lats # x.lats -> "lattices"
       [] Len(o.now.models) # Len(x.models) -> "models"
       [] \E i \in DOMAIN x.models : o.now.models[i].added # x.models[i].added -> "parts of the model"
       [] \E i \in DOMAIN x.models : o.now.models[i].shape # x.models[i].shape -> "shape of the model"
       [] \E i \in DOMAIN x.models : o.now.models[i].modifiers # x.models[i].modifiers -> "modifiers of the model"
       [] o.now.models # x.models -> "leads, lattice or system of the model"
       [] e.op = "values" /\ o.values # e.diagonal -> "map of the onsite energy"
       [] OTHER -> ""

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [lats |-> <<>>, models |-> <<>>]
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == IF e.res # "ok" THEN "a query fails" ELSE Mismatch(st, e)
     IN IF why = "" THEN
           /\ st' = After(st, e).st /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
