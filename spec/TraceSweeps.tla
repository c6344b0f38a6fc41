----------------------------- MODULE TraceSweeps -----------------------------
(* Recorded sweeps: everything which the loop, the factory and the hooks saw *)
EXTENDS Sweeps, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Ev(t, i) == Traces[t].ev[i]
Cfg(t) == Traces[t].cfg

(* the sequence: the product of the variables, the last one changes fastest *)
Prod(vars) == FoldLeft(LAMBDA acc, v : acc * Len(v), 1, vars)
Tuple(vars, i) == [j \in DOMAIN vars |-> LET below == Prod(SubSeq(vars, j + 1, Len(vars))) IN vars[j][(((i - 1) \div below) % Len(vars[j])) + 1]]
Weight == <<10, 100, 1000>>
Sum(s) == FoldLeft(LAMBDA acc, v : acc + v, 0, s)
Row(c, i) == [k \in DOMAIN c.energy |-> c.energy[k] + Sum([j \in DOMAIN c.vars |-> Weight[j] * Tuple(c.vars, i)[j]])]
Given(c, i) == {<<c.names[j], Tuple(c.vars, i)[j]>> : j \in DOMAIN c.vars} \union {<<c.fixed[k][1], c.fixed[k][2]>> : k \in DOMAIN c.fixed}
Zero(c) == IF c.kind = "plain" THEN <<>> ELSE [k \in DOMAIN c.energy |-> 0]
Rows(c, w) == [i \in 1..w.n |-> IF w.data[i] = None THEN Zero(c) ELSE w.data[i]]
Fails(c) == c.fail > 0

Why(c, w, e) ==
  CASE e.op = "loop" -> IF c.threads = 1 \/ e.n # w.n \/ e.threads # c.threads \/ e.queue # c.queue THEN "arguments of the parallel loop" ELSE "ok"
    [] e.op = "produce" -> IF ~CanProduce(w) THEN "a job is produced at this time"
                           ELSE IF ToSet(e.given) # Given(c, w.next + 1) THEN "parameters of the job" ELSE "ok"
    [] e.op = "first" -> IF ~CanFirst(w) \/ e.job # 1 THEN "the first-hook at this time" ELSE "ok"
    [] e.op = "compute" -> IF ~CanCompute(w, e.job) THEN "a job is computed at this time" ELSE "ok"
    [] e.op = "retire" -> IF ~CanRetire(w, e.job) THEN "a job is retired at this time" ELSE "ok"
    [] e.op = "status" -> IF ~CanStatus(w, e.job, e.count) THEN "status" ELSE "ok"
    [] e.op = "saved" -> IF ~CanSave(w) THEN "data is saved at this time" ELSE IF e.rows # Rows(c, w) THEN "saved data" ELSE "ok"
    [] e.op = "plot" -> IF w.retired = <<>> \/ w.status # Len(w.retired) \/ e.rows # Rows(c, w) THEN "plotted data" ELSE "ok"
    [] e.op = "raise" -> IF ~Fails(c) THEN "the sweep failed"
                         ELSE IF ~e.own THEN "another error" ELSE IF ~e.stdout THEN "the output streams after the sweep" ELSE "ok"
    [] e.op = "return" ->
         IF Fails(c) THEN "the error was lost"
         ELSE IF ~(IF c.file THEN Done(w) ELSE AllRetired(w)) THEN "not everything has been done and saved"
         ELSE IF c.file /\ ~(EnoughSaves(w, c.every) /\ FewSaves(w, c.every)) THEN "interval of saves"
         ELSE IF e.rows # [i \in 1..w.n |-> Row(c, i)] THEN "data of the result"
         ELSE IF c.kind # "plain" /\ (e.energy # c.energy \/ e.vars # c.vars) THEN "variables of the result"
         ELSE IF ~e.stdout THEN "the output streams after the sweep"
         ELSE IF c.log /\ e.log # [k \in 1..w.n |-> [count |-> k, job |-> w.retired[k], vars |-> [j \in DOMAIN c.vars |-> <<c.names[j], Tuple(c.vars, w.retired[k])[j]>>]]] THEN "log"
         ELSE "ok"
    [] OTHER -> "unknown event"
After(c, w, e) ==
  CASE e.op = "produce" -> Produce(w)
    [] e.op = "first" -> First(w)
    [] e.op = "compute" -> Compute(w, e.job)
    [] e.op = "retire" -> IF c.status THEN Retire(w, e.job, Row(c, e.job)) ELSE Status(Retire(w, e.job, Row(c, e.job)))
    [] e.op = "status" -> Status(w)
    [] e.op = "saved" -> Save(w)
    [] OTHER -> w

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = LET c == Cfg(tid) IN Start(Prod(c.vars), c.threads, c.queue)
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         why == Why(Cfg(tid), st, e)
     IN IF why = "ok" THEN
           /\ st' = After(Cfg(tid), st, e) /\ l' = l + 1 /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
