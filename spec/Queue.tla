------------------------------- MODULE Queue -------------------------------
(* The work queue as its users see it: a bounded FIFO which is closed when its last producer has left.
   Operations take effect at one moment between their call and their return (linearizability); those
   which cannot take effect wait.

   A state is [q, prod, closed]: the items, the number of producers, closed for the consumers. *)
EXTENDS Integers, Sequences, FiniteSets

EmptyQueue == [q |-> <<>>, prod |-> 0, closed |-> FALSE]
None == -1

Enabled(s, max, op) ==
  CASE op = "push" -> max = 0 \/ Len(s.q) < max
    [] op = "pop" -> s.q # <<>> \/ s.closed
    [] OTHER -> TRUE

Effect(s, op, v) ==
  CASE op = "push" -> [s EXCEPT !.q = Append(@, v)]
    [] op = "pop" -> IF s.q = <<>> THEN s ELSE [s EXCEPT !.q = Tail(@)]
    [] op = "addp" -> [s EXCEPT !.prod = @ + 1, !.closed = IF s.prod + 1 > 0 THEN FALSE ELSE @]
    [] op = "remp" -> [s EXCEPT !.prod = @ - 1, !.closed = IF s.prod - 1 <= 0 THEN TRUE ELSE @]

Answer(s, op) == IF op = "pop" THEN (IF s.q = <<>> THEN None ELSE Head(s.q)) ELSE 0

(* Histories of several threads: the possible states, given the calls and returns so far.
   A possible state is [s, pend]; pend[t] = [st, op, v, res] with st in idle, wait (not yet effective), done. *)
Idle == [st |-> "idle", op |-> "", v |-> 0, res |-> 0]
Possible0(threads) == {[s |-> EmptyQueue, pend |-> [t \in 1..threads |-> Idle]]}

Step(p, max, t) ==
  [s |-> Effect(p.s, p.pend[t].op, p.pend[t].v),
   pend |-> [p.pend EXCEPT ![t] = [@ EXCEPT !.st = "done", !.res = Answer(p.s, p.pend[t].op)]]]
CanStep(p, max, t) == p.pend[t].st = "wait" /\ Enabled(p.s, max, p.pend[t].op)

RECURSIVE Closure(_, _)
Closure(P, max) ==
  LET new == UNION {{Step(p, max, t) : t \in {u \in DOMAIN p.pend : CanStep(p, max, u)}} : p \in P}
  IN IF new \subseteq P THEN P ELSE Closure(P \cup new, max)

Call(P, t, op, v) ==
  {[p EXCEPT !.pend[t] = [st |-> "wait", op |-> op, v |-> v, res |-> 0]] : p \in P}
Return(P, max, t, res) ==
  {[p EXCEPT !.pend[t] = Idle] :
     p \in {q \in Closure(P, max) : q.pend[t].st = "done" /\ q.pend[t].res = res}}
\* Nobody can go on: allowed only if no operation is possible
MayBeStuck(P, max) ==
  \E p \in Closure(P, max) : \A t \in DOMAIN p.pend :
     p.pend[t].st = "idle" \/ (p.pend[t].st = "wait" /\ ~CanStep(p, max, t))
AllIdle(P) == \A p \in P : \A t \in DOMAIN p.pend : p.pend[t].st = "idle"
=============================================================================
