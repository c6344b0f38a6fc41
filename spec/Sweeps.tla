------------------------------- MODULE Sweeps -------------------------------
(* A parameter sweep (pybinding.parallel): jobs are produced in order, computed and retired in any order by a
   parallel loop (Threads.tla), and each result has its place in the data.  Unfinished data is saved now and then. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT Faulty

None == <<>>
(* w: [n, threads, queue, next (produced), first (hook was called), computed, retired (in order), status (calls), saved (counts), data, phase] *)
Start(n, threads, queue) == [n |-> n, threads |-> threads, queue |-> queue, next |-> 0, first |-> FALSE, computed |-> {}, retired |-> <<>>,
                             status |-> 0, saved |-> <<>>, data |-> [i \in 1..n |-> None], phase |-> "run"]
Live(w) == (1..w.next) \ {w.retired[k] : k \in DOMAIN w.retired}
CanProduce(w) == /\ w.phase = "run" /\ w.next < w.n
                 /\ w.next = 0 \/ w.first
                 /\ w.status = Len(w.retired)
                 /\ IF w.threads = 1 THEN Live(w) = {} ELSE Cardinality(Live(w)) < w.queue + w.threads
Produce(w) == [w EXCEPT !.next = @ + 1]
CanFirst(w) == w.next = 1 /\ ~w.first /\ w.computed = {}
First(w) == [w EXCEPT !.first = TRUE]
CanCompute(w, i) == i \in Live(w) \ w.computed /\ w.first
Compute(w, i) == [w EXCEPT !.computed = @ \union {i}]
CanRetire(w, i) == i \in Live(w) \intersect w.computed /\ w.status = Len(w.retired)
Retire(w, i, v) == [w EXCEPT !.retired = Append(@, i),
                             !.data = IF "in_order_of_retirement" \in Faulty THEN [@ EXCEPT ![Len(w.retired) + 1] = v] ELSE [@ EXCEPT ![i] = v]]
CanStatus(w, i, count) == w.status = Len(w.retired) - 1 /\ i = w.retired[Len(w.retired)] /\ count = Len(w.retired)
Status(w) == [w EXCEPT !.status = @ + 1]
(* saved only between two jobs, at most once *)
CanSave(w) == w.retired # <<>> /\ w.status = Len(w.retired) /\ (IF w.saved = <<>> THEN TRUE ELSE w.saved[Len(w.saved)] # Len(w.retired))
Save(w) == [w EXCEPT !.saved = Append(@, Len(w.retired))]
(* the interval, in percent *)
Ceil(x, y) == (x + y - 1) \div y
EnoughSaves(w, every) == \A k \in 1..Len(w.saved) + 1 :
                            (IF k > Len(w.saved) THEN w.n ELSE w.saved[k]) - (IF k = 1 THEN 0 ELSE w.saved[k - 1]) <= Ceil(every * w.n, 100) + 1
FewSaves(w, every) == (Len(w.saved) - 1) * every <= 100
AllRetired(w) == Len(w.retired) = w.n /\ w.status = w.n
Done(w) == AllRetired(w) /\ w.saved # <<>> /\ w.saved[Len(w.saved)] = w.n

Value(i) == <<i * 10>>
Partial(w) == \A i \in 1..w.n : w.data[i] = IF \E k \in DOMAIN w.retired : w.retired[k] = i THEN Value(i) ELSE None
=============================================================================
