-------------------------- MODULE TraceKpmInterface --------------------------
EXTENDS KpmInterface, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st       \* [models, now, python]
Ev(t, i) == Traces[t].ev[i]
None == -999

ModelOf(e) == [sites |-> [i \in DOMAIN e.sites |-> [x |-> e.sites[i][1], y |-> e.sites[i][2], sub |-> e.subs[i], norb |-> e.norb[i]]],
               names |-> e.names, h |-> IF e.re = <<>> THEN <<>> ELSE Doubled(e.re, e.im)]
Now == st.models[st.now]
KernelNumber(k) == CASE k = "" -> None [] k = "jackson" -> 1 [] k = "lorentz" -> 104 [] k = "lorentz5" -> 105 [] k = "dirichlet" -> 3
SeriesMismatch(o, e, table, what) ==
  LET flat == \A i \in DOMAIN table : Len(table[i]) = 1
  IN CASE o.x # e.energy -> "energies"
       [] flat /\ (o.dims # 1 \/ o.data # Flat(table)) -> "values"
       [] ~flat /\ (o.dims # 2 \/ o.data # table) -> "values of the orbitals"
       [] o.labels # what -> "labels"
       [] OTHER -> ""
LdosLabels == <<"E (eV)", "LDOS">>
DirectionOf(e) == IF e.direction = "" THEN "xx" ELSE e.direction
Default(x, d) == IF x = None THEN d ELSE x

KpmMismatch(e) ==
  LET o == e.obs
  IN CASE o.model # e.model + 1 -> "model"
       [] o.energy # (IF e.energy = <<>> THEN <<0, 0>> ELSE e.energy) -> "energy range"
       [] o.kernel # KernelNumber(e.kernel) -> "kernel"
       [] o.threads # (IF e.threads = 0 THEN None ELSE e.threads) -> "threads"
       [] o.callback # (IF e.silent = "yes" \/ (e.cuda /\ ~e.callback) THEN "none" ELSE IF e.callback THEN "own" ELSE "bar") -> "progress callback"
       [] o.extra # e.extras -> "other options"
       [] OTHER -> ""
SpatialMismatch(e) ==
  LET o == e.obs
      ix == Chosen(Now, e.box, SubOf(Now, e.sub))
      site(i, v) == <<Now.sites[i].x, Now.sites[i].y, Now.sites[i].sub, v>>
      map(k) == [j \in DOMAIN ix |-> site(ix[j], Value(e.energy[k], ix[j] - 1, e.broadening))]
      fam == {j \in DOMAIN ix : e.looksub = "" \/ Now.sites[ix[j]].sub = SubOf(Now, e.looksub)}
      near == {j \in fam : \A q \in fam : Distance(Now.sites[ix[j]], e.at) <= Distance(Now.sites[ix[q]], e.at)}
  IN CASE ~\E k \in NearestTo(e.energy, e.pick) : o.map = map(k) -> "map of the LDOS"
       [] e.look /\ ~\E j \in near : SeriesMismatch(o.ldos, e, [i \in DOMAIN e.energy |-> <<Value(e.energy[i], ix[j] - 1, e.broadening)>>], LdosLabels) = "" -> "LDOS of a site"
       [] OTHER -> ""
Mismatch(e) ==
  IF e.res # "ok" THEN "it fails"
  ELSE CASE e.op = "model" -> ""
    [] e.op = "kpm" -> KpmMismatch(e)
    [] e.op = "set_model" -> IF e.obs = [model |-> e.model + 1, n |-> Len(st.models[e.model + 1].sites)] THEN "" ELSE "model"
    [] e.op = "python" -> ""
    [] e.op \in {"ldos", "deferred"} ->
         LET s == CHOOSE s \in Closest(Now.sites, e.at, SubOf(Now, e.sub)) : TRUE
             table == Table(e.energy, RowsOf(Now, s), e.broadening, e.reduce)
         IN IF e.op = "deferred" THEN (IF e.obs.data = table THEN "" ELSE "deferred values") ELSE SeriesMismatch(e.obs, e, table, LdosLabels)
    [] e.op = "spatial" -> SpatialMismatch(e)
    [] e.op = "dos" -> SeriesMismatch(e.obs, e, [i \in DOMAIN e.energy |-> <<100 * e.energy[i] + 10 * e.broadening + Default(e.random, 1)>>], <<"E (eV)", "DOS">>)
    [] e.op = "greens" ->
         IF e.obs.call = [i |-> e.i, j |-> e.j, energy |-> e.energy, broadening |-> e.broadening]
            /\ e.obs.data = [k \in DOMAIN e.j |-> [q \in DOMAIN e.energy |-> 100 * e.j[k] + e.energy[q]]] THEN "" ELSE "Green's function"
    [] e.op = "moments" ->
         IF e.obs.call = [num |-> e.num, alpha |-> e.alpha, beta |-> e.beta, op |-> IF e.form = "" THEN <<>> ELSE e.matrix]
            /\ e.obs.data = [k \in 1..e.num |-> 3 * (k - 1)] THEN "" ELSE "moments"
    [] e.op = "conductivity" ->
         LET call == [broadening |-> e.broadening, temperature |-> e.temperature, direction |-> DirectionOf(e), random |-> Default(e.random, 1), points |-> Default(e.points, 1000)]
         IN IF e.obs.call # call THEN "arguments"
            ELSE IF e.obs.x # e.energy \/ e.obs.data # [i \in DOMAIN e.energy |-> (24 * e.energy[i]) \div e.halves] THEN "conductivity" ELSE ""
    [] e.op = "bounds" -> LET d == [i \in DOMAIN Now.h |-> Now.h[i][i]] IN IF e.obs = <<Least(d), Largest(d)>> THEN "" ELSE "bounds of the energies of the model"
    [] e.op = "exact" ->
         LET s == CHOOSE s \in Closest(Now.sites, e.at, SubOf(Now, e.sub)) : TRUE
             table == ExactLdos(Now, st.center, s, e.energy, st.g, e.reduce)
             flat == \A i \in DOMAIN table : Len(table[i]) = 1
         IN CASE e.obs.x # e.energy -> "energies"
              [] e.obs.data # table \/ e.obs.dims # (IF flat THEN 1 ELSE 2) -> "LDOS from the moments"
              [] e.obs.asked # <<30 * e.broadening>> \/ e.obs.num # Len(st.g) -> "number of moments"
              [] OTHER -> ""
    [] e.op = "bar" ->
         LET p[i \in 0..Len(e.calls)] == IF i = 0 THEN Idle ELSE Report(p[i - 1], e.calls[i][1], e.calls[i][2])
             seen(q) == <<IF q.running THEN 1 ELSE 0, q.value, q.size, IF q.running THEN 0 ELSE 1>>
                      all(q) == q.running /\ q.value = q.size     \* the bar may be finished before it is told so
         IN IF Len(e.obs) = Len(e.calls) /\ \A i \in DOMAIN e.calls : e.obs[i] = seen(p[i]) \/ (all(p[i]) /\ e.obs[i] = seen([p[i] EXCEPT !.running = FALSE]))
            THEN "" ELSE "progress"
After(e) ==
  CASE e.op = "model" -> [st EXCEPT !.models = Append(@, ModelOf(e))]
    [] e.op = "kpm" -> [st EXCEPT !.now = e.model + 1, !.python = FALSE]
    [] e.op = "set_model" -> [st EXCEPT !.now = e.model + 1]
    [] e.op = "python" -> [st EXCEPT !.now = e.model + 1, !.python = TRUE, !.center = e.center, !.g = e.g]
    [] OTHER -> st

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = [models |-> <<>>, now |-> 0, python |-> FALSE, center |-> 0, g |-> <<>>]
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == Mismatch(e)
     IN IF why = "" THEN
           /\ st' = After(e) /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
