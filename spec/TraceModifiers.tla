--------------------------- MODULE TraceModifiers ---------------------------
(* Recorded: modifiers and generators are made from functions with any arguments and applied like the core does it *)
EXTENDS Modifiers, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Ev(t, i) == Traces[t].ev[i]

Keywords(kind) == CASE kind = "site_state" -> {"state", "x", "y", "z", "sub_id", "sites"}
                    [] kind = "site_position" -> {"x", "y", "z", "sub_id", "sites"}
                    [] kind = "onsite" -> {"energy", "x", "y", "z", "sub_id", "sites"}
                    [] kind = "hopping" -> {"energy", "x1", "y1", "z1", "x2", "y2", "z2", "hop_id"}
                    [] OTHER -> {"system", "x", "y", "z"}
Option(e, k, default) == IF \E o \in Range(e.opts) : o[1] = k THEN (CHOOSE o \in Range(e.opts) : o[1] = k)[2] ELSE default
Init0(e) == CASE e.kind = "site_state" -> {<<"min_neighbors", Option(e, "min_neighbors", 0)>>}
              [] e.kind = "site_position" -> {}
              [] e.kind = "onsite" -> {<<"is_double", Option(e, "is_double", Option(e, "double", 0))>>}
              [] e.kind = "hopping" -> {<<"is_double", Option(e, "is_double", Option(e, "double", 0))>>, <<"is_complex", Option(e, "is_complex", 0)>>}
              [] OTHER -> {<<"name", e.name>>, <<"energy", e.energy>>}
Text(e) == e.factory \o "(a=" \o ToString(e.a) \o ", b=" \o ToString(e.b) \o ")"
MakeOk(e) == Range(e.args) \subseteq Keywords(e.kind)

Prime(kind) == CASE kind = "site_state" -> "state" [] kind = "site_position" -> "x" [] OTHER -> "energy"
Coords(kind) == IF kind = "hopping" THEN <<"x1", "y1", "z1", "x2", "y2", "z2">> ELSE <<"x", "y", "z">>
PosOf(m, e, name) == e.pos[CHOOSE k \in DOMAIN Coords(m.kind) : Coords(m.kind)[k] = name]
IsName(nm, t) == nm.full = t \/ nm.first = t
ThreeD(p) == p.a # 1 \/ p.b # 1
(* what the function must be given *)
Seen(m, e, name) ==
  CASE name = Prime(m.kind) /\ name # "x" ->
         [shape |-> IF ThreeD(e.prime) THEN <<e.prime.n, e.prime.a, e.prime.b>> ELSE <<e.prime.n>>, vals |-> e.prime.vals]
    [] name \in {"sub_id", "hop_id"} ->
         [same |-> [t \in DOMAIN e.tests |-> IsName(e.name, e.tests[t])], other |-> [t \in DOMAIN e.tests |-> ~IsName(e.name, e.tests[t])],
          eye |-> <<e.prime.a, e.prime.b>>, str |-> e.name.full]
    [] name = "sites" -> [x |-> e.pos[1], y |-> e.pos[2], z |-> e.pos[3], n |-> e.prime.n]
    [] OTHER -> [shape |-> IF ThreeD(e.prime) THEN <<e.prime.n, 1, 1>> ELSE <<e.prime.n>>,
                 vals |-> [s \in DOMAIN PosOf(m, e, name) |-> <<PosOf(m, e, name)[s], 0>>]]
NReturn(kind) == IF kind = "site_position" THEN 3 ELSE 1
CanComplex(kind) == kind \in {"onsite", "hopping"}
Result(m, e) == Outcome(e.prime, e.results, NReturn(m.kind), CanComplex(m.kind))

(* the sites which a hopping generator returned: indices, or for a mask the indices of what is set *)
Indices(r) == IF r.mask THEN SelectSeq([k \in DOMAIN r.vals |-> IF r.vals[k] = 1 THEN k - 1 ELSE -1], LAMBDA v : v >= 0) ELSE r.vals
GenSeen(e, name) == IF name = "system" THEN [x |-> e.pos[1], y |-> e.pos[2], z |-> e.pos[3]]
                    ELSE [vals |-> e.pos[CASE name = "x" -> 1 [] name = "y" -> 2 [] name = "z" -> 3]]
GenResult(m, e) == [j \in DOMAIN e.results |-> IF m.kind = "hopping_generator" THEN Indices(e.results[j]) ELSE e.results[j].vals]

(* the modifiers which come with the library: the same energy for each orbital, or only the type of numbers *)
PresetResult(e) ==
  [array |-> TRUE, kind |-> e.prime.kind, bits |-> e.prime.bits,
   vals |-> IF e.which = "constant_potential" THEN PlusOnDiagonal(e.prime, e.magnitude) ELSE e.prime.vals]
PresetKind(e) == IF e.which = "force_complex_numbers" THEN "HoppingModifier" ELSE "OnsiteModifier"
PresetInit(e) == {<<"is_double", IF e.which = "force_double_precision" THEN 1 ELSE 0>>} \cup (IF e.which = "force_complex_numbers" THEN {<<"is_complex", 1>>} ELSE {})

Why(s, e) ==
  CASE e.op = "make" ->
       IF MakeOk(e) # (e.res = "ok") THEN IF MakeOk(e) THEN "rejected a valid function" ELSE "accepted a function with unexpected arguments"
       ELSE IF e.res # "ok" THEN "ok"
       ELSE IF Range(e.obs.init) # Init0(e) THEN "options of the modifier"
       ELSE IF e.obs.str # Text(e) THEN "text of the modifier"
       ELSE "ok"
    [] e.op = "apply" ->
       LET m == s[e.of + 1] R == Result(m, e) IN
       IF ~e.haslog THEN "the function was not called"
       ELSE IF Len(e.log) # Len(m.args) \/ \E a \in DOMAIN m.args : e.log[a] # Seen(m, e, m.args[a]) THEN "arguments of the function"
       ELSE IF R.ok # (e.res = "ok") THEN IF R.ok THEN "rejected a valid result" ELSE "accepted an invalid result"
       ELSE IF e.res # "ok" THEN "ok"
       ELSE IF [j \in DOMAIN e.obs.out |-> e.obs.out[j].kind] # [j \in DOMAIN R.out |-> R.out[j].kind]
               \/ [j \in DOMAIN e.obs.out |-> e.obs.out[j].bits] # [j \in DOMAIN R.out |-> R.out[j].bits] THEN "type of the result"
       ELSE IF [j \in DOMAIN e.obs.out |-> e.obs.out[j].raw] # [j \in DOMAIN R.out |-> R.out[j].raw] THEN "values which the core reads"
       ELSE "ok"
    [] e.op = "preset" ->
       LET R == Outcome(e.prime, <<PresetResult(e)>>, 1, TRUE) IN
       IF e.res # "ok" THEN "a preset modifier fails"
       ELSE IF e.obs.kind # PresetKind(e) \/ Range(e.obs.init) # PresetInit(e) THEN "options of the modifier"
       ELSE IF Len(e.obs.out) # 1 \/ e.obs.out[1].kind # R.out[1].kind \/ e.obs.out[1].bits # R.out[1].bits THEN "type of the result"
       ELSE IF e.obs.out[1].raw # R.out[1].raw THEN "values which the core reads"
       ELSE "ok"
    [] e.op = "generate" ->
       LET m == s[e.of + 1] IN
       IF e.res # "ok" THEN "rejected a valid result"
       ELSE IF \E a \in DOMAIN m.args : e.log[a] # GenSeen(e, m.args[a]) THEN "arguments of the function"
       ELSE IF e.obs # GenResult(m, e) THEN "generated sites or hoppings"
       ELSE "ok"
    [] OTHER -> "unknown event"

NewState(s, e) == IF e.op = "make" /\ e.res = "ok" THEN Append(s, [kind |-> e.kind, args |-> e.args]) ELSE s

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = <<>>
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == Why(st, e)
     IN IF why = "ok" THEN
           /\ st' = NewState(st, e) /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
