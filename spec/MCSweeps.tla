------------------------------ MODULE MCSweeps ------------------------------
EXTENDS Sweeps
CONSTANTS NMAX
VARIABLES w
Init == w \in {Start(n, t, q) : n \in 1..NMAX, t \in 1..2, q \in 1..2}
Next == \/ w.next < w.n /\ CanProduce(w) /\ w' = Produce(w)
        \/ CanFirst(w) /\ w' = First(w)
        \/ \E i \in Live(w) : CanCompute(w, i) /\ w' = Compute(w, i)
        \/ \E i \in Live(w) : CanRetire(w, i) /\ w' = Retire(w, i, Value(i))
        \/ w.retired # <<>> /\ CanStatus(w, w.retired[Len(w.retired)], Len(w.retired)) /\ w' = Status(w)
        \/ CanSave(w) /\ w' = Save(w)
Spec == Init /\ [][Next]_w /\ WF_w(Next)
EachAtItsPlace == Partial(w)
NoLoss == Done(w) => \A i \in 1..w.n : w.data[i] = Value(i)
InOrderAlone == w.threads = 1 => \A k \in DOMAIN w.retired : w.retired[k] = k
Bounded == Cardinality(Live(w)) <= w.queue + w.threads
Ends == <>Done(w)
=============================================================================
