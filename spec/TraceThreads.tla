---------------------------- MODULE TraceThreads ----------------------------
(* Checks what the multithreaded parts did under many schedules: the queue against Queue.tla,
   parallel_for, the thread pool and the batched moments against "each job exactly once". *)
EXTENDS Queue, TLC, Json, IOUtils, FiniteSetsExt, SequencesExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st

Cfg(t) == Traces[t].cfg
Ev(t, i) == Traces[t].ev[i]

(* ------------------------------------------------------------------ queue *)
QueueStart(c) == [P |-> Possible0(c.threads)]
QueueNext(c, s, e) ==
  CASE e.k = "call" -> [P |-> Call(s.P, e.t, e.x, e.v)]
    [] e.k = "ret" -> [P |-> Return(s.P, c.max, e.t, e.v)]
QueueBad(c, s, e) ==
  CASE e.k = "call" -> ""
    [] e.k = "ret" -> IF Return(s.P, c.max, e.t, e.v) = {} THEN "the result of " \o e.x \o " is impossible" ELSE ""
    [] OTHER -> "unknown event"
QueueEnd(c, s, how) ==
  CASE how = "done" -> IF AllIdle(s.P) THEN "" ELSE "operations without a return"
    [] how = "stuck" -> IF MayBeStuck(s.P, c.max) THEN "" ELSE "stuck, although an operation could go on"
    [] OTHER -> "endless"

(* ----------------------------------------------------------- parallel_for *)
\* phases of a job: 0 new, 1 in production, 2 produced, 3 in computation, 4 computed, 5 in retirement, 6 retired
ForStart(c) == [ph |-> [i \in 0..(c.size - 1) |-> 0], ret |-> FALSE]
In(s, p) == Cardinality({i \in DOMAIN s.ph : s.ph[i] = p})
Capacity(c) == IF c.queue > 0 THEN c.queue ELSE c.threads
ForNext(c, s, e) ==
  CASE e.k = "produce" -> [s EXCEPT !.ph[e.v] = 1]
    [] e.k = "produced" -> [s EXCEPT !.ph[e.v] = 2]
    [] e.k = "compute" -> [s EXCEPT !.ph[e.v] = 3]
    [] e.k = "computed" -> [s EXCEPT !.ph[e.v] = 4]
    [] e.k = "retire" -> [s EXCEPT !.ph[e.v] = 5]
    [] e.k = "retired" -> [s EXCEPT !.ph[e.v] = 6]
    [] e.k = "return" -> [s EXCEPT !.ret = TRUE]
Phase(k) == CASE k = "produce" -> 0 [] k = "produced" -> 1 [] k = "compute" -> 2 [] k = "computed" -> 3
              [] k = "retire" -> 4 [] k = "retired" -> 5
ForBad(c, s, e) ==
  CASE s.ret -> "an event after the return"
    [] e.k = "return" -> IF In(s, 6) = c.size THEN "" ELSE "returned before all jobs were retired"
    [] e.v \notin DOMAIN s.ph -> "unknown job"
    [] s.ph[e.v] # Phase(e.k) -> "a job out of turn or twice"
    [] e.k = "produce" /\ In(s, 1) > 0 -> "two productions at once"
    [] e.k = "produce" /\ \E i \in 0..(e.v - 1) : s.ph[i] = 0 -> "jobs are not produced in order"
    [] e.k = "produce" /\ In(s, 2) > Capacity(c) + c.threads - In(s, 3) -> "more jobs are produced than the queue holds"
    [] e.k = "compute" /\ In(s, 3) >= c.threads -> "more computations at once than threads"
    [] e.k = "compute" /\ e.x # 0 -> "computed twice"
    [] e.k = "retire" /\ In(s, 5) > 0 -> "two retirements at once"
    [] e.k \in {"retire", "retired"} /\ (e.t # e.v \/ e.x # 1) -> "the retired value is not the computed one of the job"
    [] OTHER -> ""
ForEnd(c, s, how) == IF how = "done" /\ s.ret THEN "" ELSE "does not end: " \o how

(* ------------------------------------------------------------ thread pool *)
PoolStart(c) == [added |-> {}, begun |-> {}, ended |-> {}, ret |-> FALSE]
PoolNext(c, s, e) ==
  CASE e.k = "add" -> [s EXCEPT !.added = @ \cup {e.v}]
    [] e.k = "begin" -> [s EXCEPT !.begun = @ \cup {e.v}]
    [] e.k = "end" -> [s EXCEPT !.ended = @ \cup {e.v}]
    [] e.k = "return" -> [s EXCEPT !.ret = TRUE]
    [] OTHER -> s
PoolBad(c, s, e) ==
  CASE s.ret -> "an event after the end of the pool"
    [] e.k = "begin" /\ e.v \notin s.added -> "a job which was not added"
    [] e.k = "begin" /\ e.v \in s.begun -> "a job which runs twice"
    [] e.k = "begin" /\ Cardinality(s.begun \ s.ended) >= c.threads -> "more jobs at once than threads"
    [] e.k = "end" /\ (e.v \notin s.begun \/ e.v \in s.ended) -> "a job ends twice"
    [] e.k \in {"joined", "return"} /\ s.ended # c.ids -> "joined before all jobs have ended"
    [] OTHER -> ""
PoolEnd(c, s, how) == IF how = "done" /\ s.ret THEN "" ELSE "does not end: " \o how

(* -------------------------------------------------------- batched moments *)
\* vectors are numbered as they are made; `have`: those whose moments were collected
BatchStart(c) == [made |-> 0, busy |-> FALSE, coll |-> FALSE, have |-> {}, prog |-> <<>>, ret |-> FALSE]
BatchNext(c, s, e) ==
  CASE e.k = "make" -> [s EXCEPT !.made = e.v, !.busy = TRUE]
    [] e.k = "made" -> [s EXCEPT !.busy = FALSE]
    [] e.k = "collect" -> [s EXCEPT !.coll = TRUE,
                                    !.have = @ \cup {i \in {e.v + k : k \in 1..Len(e.x)} : i <= c.vectors}]
    [] e.k = "collected" -> [s EXCEPT !.coll = FALSE]
    [] e.k = "progress" -> [s EXCEPT !.prog = Append(@, e.v)]
    [] e.k = "return" -> [s EXCEPT !.ret = TRUE]
BatchBad(c, s, e) ==
  CASE s.ret -> "an event after the return"
    [] e.k = "make" /\ s.busy -> "two starters at once"
    [] e.k = "make" /\ e.v # s.made + 1 -> "starters out of order"
    [] e.k = "collect" /\ s.coll -> "two collections at once"
    [] e.k = "collect" /\ e.t # c.vectors -> "the number of vectors"
    [] e.k = "collect" /\ e.v \notin 0..(c.vectors - 1) -> "a vector beyond the last"
    [] e.k = "collect" /\ \E k \in 1..Len(e.x) : e.v + k <= c.vectors /\ e.x[k] # e.v + k ->
         "moments of another vector"
    [] e.k = "collect" /\ \E k \in 1..Len(e.x) : (e.v + k) \in s.have -> "a vector which is collected twice"
    [] e.k = "progress" /\ e.x # c.vectors -> "the total of the progress"
    [] e.k = "progress" /\ s.prog = <<>> /\ e.v # -1 -> "the progress does not begin with -1"
    [] e.k = "progress" /\ s.prog # <<>> /\ e.v <= 0 -> "the progress goes back"
    [] e.k = "return" /\ s.have # 1..c.vectors -> "vectors are missing"
    [] e.k = "return" /\ (s.prog = <<>> \/ s.prog[Len(s.prog)] # c.vectors) -> "the progress does not end with the total"
    [] e.k = "return" /\ FoldLeft(LAMBDA a, k : a + s.prog[k], 0, [k \in 1..(Len(s.prog) - 2) |-> k + 1]) < c.vectors ->
         "the progress misses vectors"
    [] OTHER -> ""
BatchEnd(c, s, how) == IF how = "done" /\ s.ret THEN "" ELSE "does not end: " \o how

(* ------------------------------------------------------------------------ *)
IdsOf(t) == {Traces[t].ids[k] : k \in 1..Len(Traces[t].ids)}
Conf(t) == [Cfg(t) EXCEPT !.ids = IdsOf(t)]
Start(c) == CASE c.op = "queue" -> QueueStart(c) [] c.op = "for" -> ForStart(c) [] c.op = "pool" -> PoolStart(c)
              [] c.op = "batch" -> BatchStart(c)
Bad(c, s, e) ==
  CASE e.k = "start" -> ""
    [] e.k = "end of run" -> (CASE c.op = "queue" -> QueueEnd(c, s, e.x) [] c.op = "for" -> ForEnd(c, s, e.x)
                               [] c.op = "pool" -> PoolEnd(c, s, e.x) [] c.op = "batch" -> BatchEnd(c, s, e.x))
    [] c.op = "queue" -> QueueBad(c, s, e)
    [] c.op = "for" -> ForBad(c, s, e)
    [] c.op = "pool" -> PoolBad(c, s, e)
    [] c.op = "batch" -> BatchBad(c, s, e)
After(c, s, e) ==
  CASE e.k = "start" -> Start(c)
    [] e.k = "end of run" -> s
    [] c.op = "queue" -> QueueNext(c, s, e)
    [] c.op = "for" -> ForNext(c, s, e)
    [] c.op = "pool" -> PoolNext(c, s, e)
    [] c.op = "batch" -> BatchNext(c, s, e)

Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ st = Start(Conf(tid))
Next ==
  /\ l > 0 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         c == Conf(tid)
         why == Bad(c, st, e)
     IN IF why # ""
        THEN /\ PrintT("REJECT " \o ToString(tid) \o " run " \o ToString(e.run) \o " (" \o c.op \o "), event " \o ToString(e.pos)
                       \o " " \o e.k \o ": " \o why)
             /\ l' = -1 /\ UNCHANGED <<tid, st>>
        ELSE /\ st' = After(c, st, e) /\ tid' = tid
             /\ IF l = Len(Traces[tid].ev) THEN PrintT("ACCEPT " \o ToString(tid)) /\ l' = 0 ELSE l' = l + 1
Spec == Init /\ [][Next]_<<tid, l, st>>
=============================================================================
