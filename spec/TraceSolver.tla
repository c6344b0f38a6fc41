---------------------------- MODULE TraceSolver ----------------------------
(* Recorded histories of the real solver interface, with a strategy whose results tell which Hamiltonian
   they belong to: eigenvalue i is the element (i, i), eigenvector i the column i of the Hamiltonian. *)
EXTENDS Solver, Json, IOUtils, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Ev(t, i) == Traces[t].ev[i]

\* st: [none, abs, fails]: abs.model = [n, h, type, sites]
Nothing == [none |-> TRUE, abs |-> [model |-> [n |-> 0, h |-> <<>>, type |-> "", sites |-> 0], fresh |-> FALSE], fails |-> 0]

Pairs(m) == (3 * m.n + 3) \div 4
Element(m, r, c) ==      \* rows and columns start at 1
  LET a == IF r < c THEN r ELSE c
      b == IF r < c THEN c ELSE r
      es == SelectSeq(m.h, LAMBDA e : e[1] = a - 1 /\ e[2] = b - 1)
  IN IF es = <<>> THEN <<0, 0>> ELSE <<es[1][3], IF r <= c THEN es[1][4] ELSE -es[1][4]>>
Level(m, i) == Element(m, i, i)[1]
Abs2(x) == x[1] * x[1] + x[2] * x[2]
Sum(f(_), n) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])

Dos(m, t) == Sum(LAMBDA i : IF Level(m, i) = t[1] THEN Weight(t[2]) ELSE 0, Pairs(m))
Ldos(m, t, r) == Sum(LAMBDA i : IF Level(m, i) = t[1] THEN Abs2(Element(m, r, i)) * Weight(t[2]) ELSE 0, Pairs(m))

Values(m) == [i \in 1..Pairs(m) |-> Level(m, i)]
Vectors(m) == [r \in 1..m.n |-> [c \in 1..Pairs(m) |-> Element(m, r, c)]]

Queries == {"solve", "values", "vectors", "dos", "ldos"}
ResultMismatch(m, e) ==
  LET o == e.obs IN
  CASE e.op = "values" /\ o.values # Values(m) -> "the eigenvalues are not those of the present model"
    [] e.op = "vectors" /\ o.vectors # Vectors(m) -> "the eigenvectors are not those of the present model"
    [] e.op = "dos" /\ (Len(o.dos) # Len(e.at) \/ \E t \in 1..Len(e.at) : o.dos[t] # Dos(m, e.at[t])) -> "density of states"
    [] e.op = "ldos" /\ (Len(o.ldos) # m.n \/ \E r \in 1..m.n : o.ldos[r] # Ldos(m, e.at[1], r)) -> "local density of states"
    [] OTHER -> ""

QueryMismatch(s, e) ==
  LET o == e.obs
      attempts == Attempts(s.abs, e.op \in Queries)
      fail == attempts = 1 /\ s.fails > 0
  IN CASE e.res # "ok" -> "rejected a valid call"
       [] o.attempts # attempts -> IF o.attempts > attempts THEN "solved again although the results are known" ELSE "not solved"
       [] o.failed # fail -> "failure of the strategy"
       [] ~fail /\ e.op \in Queries /\ o.by # s.abs.model.type -> "scalar type of the strategy"
       [] fail -> ""
       [] OTHER -> ResultMismatch(s.abs.model, e)
AfterEvent(s, e) ==
  IF e.op = "clear" THEN [s EXCEPT !.abs = AfterClear(s.abs)]
  ELSE IF e.op \in Queries THEN
     LET fail == Attempts(s.abs, TRUE) = 1 /\ s.fails > 0
     IN [s EXCEPT !.abs = AfterQuery(s.abs, fail), !.fails = IF fail THEN s.fails - 1 ELSE s.fails]
  ELSE s

\* a new model: an invalid one (or one without a strategy) is refused and changes nothing
Accepts(e) == e.obs.bad = "" /\ ~e.obs.refused
ModelMismatch(e) ==
  CASE e.obs.bad = "" /\ ~e.obs.refused /\ e.obs.rejected -> "rejected a valid model"
    [] e.obs.bad = "invalid" /\ ~e.obs.rejected -> "accepted an invalid model"
    [] OTHER -> ""
AfterNew(s, e) == IF Accepts(e) THEN [s EXCEPT !.none = FALSE, !.abs = AfterModel(s.abs, e.obs.model)] ELSE s

SmallModel(m) == /\ \A k \in 1..Len(m.h) : \A x \in {m.h[k][3], m.h[k][4]} : -30 <= x /\ x <= 30

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Nothing
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         new == e.op \in {"solver", "set_model"}
         s == IF new THEN AfterNew(st, e) ELSE IF e.op = "fail" THEN [st EXCEPT !.fails = e.times]
              ELSE IF e.op = "mutate" THEN st ELSE IF e.op = "look" THEN st ELSE AfterEvent(st, e)
         skip == \/ new /\ (e.obs.bad = "outside" \/ (Accepts(e) /\ ~SmallModel(e.obs.model)))
                 \/ new /\ s.none
         why == IF new THEN ModelMismatch(e)
                ELSE IF e.op \in {"fail", "mutate"} THEN ""
                ELSE IF e.op = "look" THEN
                   (IF e.res # "ok" THEN "the model cannot be seen"
                    ELSE IF e.obs.model # st.abs.model \/ e.obs.sites # st.abs.model.sites THEN "another model" ELSE "")
                ELSE QueryMismatch(st, e)
     IN IF skip THEN
           /\ PrintT("SKIP " \o ToString(tid) \o " event " \o ToString(l) \o ": " \o "outside of the domain")
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
        ELSE IF why = "" THEN
           /\ st' = s /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
