----------------------------- MODULE MCSolver -----------------------------
(* Design check: model, strategy and flag as in BaseSolver, with failing evaluations, failing
   constructions of strategies and failing solves, against the abstract solver. *)
EXTENDS Solver
CONSTANTS Models, Bad, TypeOf, Faulty
Types == [m \in {"a", "b", "c", "bad"} |-> IF m = "c" THEN "complex" ELSE "real"]

VARIABLES abs,      \* the abstract solver
          model, strategy, solved,   \* strategy = [type, ham, results] (or none)
          shown,    \* what the last query has shown: the Hamiltonian which the results belong to
          last      \* what happened: [op, attempts, expected]
vars == <<abs, model, strategy, solved, shown, last>>

NoResults == "nothing"
Make(m) == [type |-> TypeOf[m], ham |-> m, results |-> NoResults]
Init == \E m \in Models \ Bad :
  /\ abs = [model |-> m, fresh |-> FALSE]
  /\ model = m /\ strategy = Make(m) /\ solved = FALSE
  /\ shown = m /\ last = [op |-> "create", attempts |-> 0, expected |-> 0]

\* the strategy which is used for m: the existing one, if its type fits
Take(m) == IF TypeOf[m] = strategy.type \/ "any_type" \in Faulty THEN [strategy EXCEPT !.ham = m] ELSE Make(m)
Evaluated(m) == m \notin Bad
SetModel(m, refused) ==
  /\ IF ~Evaluated(m) THEN
        IF "assign_first" \in Faulty THEN model' = m /\ solved' = FALSE /\ UNCHANGED <<strategy, abs>>
        ELSE UNCHANGED <<model, solved, strategy, abs>>
     ELSE IF TypeOf[m] # strategy.type /\ refused THEN          \* there is no strategy for it
        IF "assign_first" \in Faulty THEN model' = m /\ solved' = FALSE /\ UNCHANGED <<strategy, abs>>
        ELSE UNCHANGED <<model, solved, strategy, abs>>
     ELSE /\ model' = m
          /\ strategy' = IF "keep_ham" \in Faulty /\ TypeOf[m] = strategy.type THEN strategy ELSE Take(m)
          /\ solved' = IF "keep_flag" \in Faulty \/ ("keep_flag_same_type" \in Faulty /\ TypeOf[m] = strategy.type) THEN solved ELSE FALSE
          /\ abs' = AfterModel(abs, m)
  /\ last' = [op |-> "set", attempts |-> 0, expected |-> 0]
  /\ UNCHANGED shown
\* solve() and everything which needs results
Query(fails) ==
  LET try == ~solved
      ok == try /\ ~fails
  IN /\ strategy' = IF ok THEN [strategy EXCEPT !.results = strategy.ham] ELSE strategy
     /\ solved' = (solved \/ ok \/ ("flag_first" \in Faulty /\ try))
     /\ shown' = IF try /\ fails THEN model ELSE strategy'.results     \* (nothing is shown after a failure)
     /\ last' = [op |-> "query", attempts |-> IF try THEN 1 ELSE 0, expected |-> Attempts(abs, TRUE)]
     /\ abs' = AfterQuery(abs, fails)
     /\ UNCHANGED model
Clear == /\ solved' = FALSE /\ abs' = AfterClear(abs)
         /\ last' = [op |-> "clear", attempts |-> 0, expected |-> 0] /\ UNCHANGED <<model, strategy, shown>>
Next == \/ \E m \in Models, r \in BOOLEAN : SetModel(m, r)
        \/ \E f \in BOOLEAN : Query(f)
        \/ Clear
Spec == Init /\ [][Next]_vars

Inv == /\ model = abs.model
       /\ last.op = "query" => shown = abs.model
       /\ last.attempts = last.expected
       /\ strategy.ham = model /\ strategy.type = TypeOf[model]
       /\ solved = abs.fresh
       /\ solved => strategy.results = model
=============================================================================
