----------------------------- MODULE MCBuilders -----------------------------
(* Design check: parts of a model are added by looking into each part first and giving it to the core if it can't
   be looked into. Whatever is nested how, all parts in front of the first refused one are added once. *)
EXTENDS Builders, TLC
CONSTANTS Faulty

Leaves == {[kind |-> "shape", id |-> 1], [kind |-> "onsite", id |-> 2], [kind |-> "none", id |-> 0], [kind |-> "other", id |-> 0], [kind |-> "refused", id |-> 0]}
SeqsOf(S, n) == UNION {[1..k -> S] : k \in 0..n}
Small == Leaves \cup {[list |-> s] : s \in SeqsOf(Leaves, 2)}
Some == Leaves \cup {[list |-> s] : s \in SeqsOf({x \in Small : IsLeaf(x) \/ Len(x.list) < 2}, 2)}
VARIABLES parts, result
vars == <<parts, result>>

\* added so far and the kind of the error
RECURSIVE Add(_, _)
Add(added, seq) ==
  IF seq = <<>> THEN <<added, "">>
  ELSE LET p == Head(seq)
           r == IF IsLeaf(p) THEN CASE p.kind = "none" -> <<added, "value">>
                                    [] p.kind = "other" -> <<added, "type">>
                                    [] p.kind = "refused" -> <<added, "value">>
                                    [] OTHER -> <<Append(added, p), "">>
                ELSE LET inner == Add(added, p.list)
                     IN IF inner[2] # "type" THEN inner
                        ELSE IF "skip" \in Faulty THEN <<inner[1], "">>               \* the list is left behind
                        ELSE IF "again" \in Faulty THEN Add(inner[1], SelectSeq(p.list, LAMBDA q : IsLeaf(q) /\ q.kind \in Accepted))
                        ELSE <<inner[1], "type">>                                     \* the core doesn't know lists
       IN IF r[2] # "" THEN r ELSE Add(r[1], Tail(seq))
Init == parts \in SeqsOf(Some, 2) /\ result = <<>>
Next == result = <<>> /\ result' = Add(<<>>, parts) /\ UNCHANGED parts
Spec == Init /\ [][Next]_vars
Once == result # <<>> => result[1] = Given(parts)
Told == result # <<>> => ((result[2] = "") <=> AllGood(parts))
=============================================================================
