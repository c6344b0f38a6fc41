------------------------------ MODULE MCCache ------------------------------
(* The lazy evaluation of a model, as an abstract design: what is cached,    *)
(* which change discards what, and when the scalar type is overridden.       *)
(* Every observation has to be the one of the description at that time.      *)
(* `Faulty` is a set of design mistakes: the model checker has to find a     *)
(* counterexample for each one of them (that shows that the invariants are   *)
(* sharp), none without.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Slots, MaxV, MaxOps, Faulty
VARIABLES desc, memo, n, seen
vars == <<desc, memo, n, seen>>

None == <<>>
\* ham = MaxV: a modifier which turns out to be complex when it is called
Dynamic(d) == d.ham = MaxV
FreshSys(d) == <<"sys", d.struct>>
FreshHam(d) == <<"ham", d.struct, d.ham, d.wave, Dynamic(d)>>
FreshLead(d) == <<"lead", d.struct, d.ham, Dynamic(d)>>
Empty == [sys |-> None, ham |-> None, lead |-> None, override |-> FALSE]

Init == /\ desc = [s \in Slots |-> [struct |-> 0, ham |-> 0, wave |-> 0]]
        /\ memo = [s \in Slots |-> Empty]
        /\ n = 0 /\ seen = TRUE
Discard(s, c) == memo' = [memo EXCEPT ![s] = c]
ChangeStruct(s, v) == /\ desc' = [desc EXCEPT ![s].struct = v]
                      /\ Discard(s, IF "keep_ham" \in Faulty THEN [Empty EXCEPT !.ham = memo[s].ham] ELSE Empty)
                      /\ seen' = TRUE
ChangeHam(s, v) == /\ desc' = [desc EXCEPT ![s].ham = v]
                   /\ Discard(s, [memo[s] EXCEPT !.ham = None, !.lead = IF "keep_lead" \in Faulty THEN @ ELSE None,
                                              !.override = IF "keep_override" \in Faulty THEN @ ELSE FALSE])
                   /\ seen' = TRUE
\* the leads don't depend on the wave vector, but they are discarded together with the Hamiltonian
ChangeWave(s, v) == /\ desc' = [desc EXCEPT ![s].wave = v]
                    /\ (IF v = desc[s].wave THEN UNCHANGED memo
                        ELSE Discard(s, [memo[s] EXCEPT !.ham = None, !.lead = None, !.override = FALSE]))
                    /\ seen' = TRUE
\* a rejected change: nothing happens
Rejected(s, v) == /\ (IF "reject_changes" \in Faulty THEN desc' = [desc EXCEPT ![s].struct = v] ELSE UNCHANGED desc)
                  /\ UNCHANGED memo /\ seen' = TRUE
WithSys(c, d) == IF c.sys = None THEN [c EXCEPT !.sys = FreshSys(d)] ELSE c
\* the Hamiltonian is computed from the cached system
WithHam(c0, d) == LET c == WithSys(c0, d) IN
  IF c.ham # None THEN c
  ELSE [c EXCEPT !.ham = <<"ham", c.sys[2], d.ham, d.wave, Dynamic(d) \/ c.override>>,
                 !.override = @ \/ Dynamic(d)]
WithLead(c0, d) == LET c == WithHam(c0, d) IN
  IF c.lead # None THEN c ELSE [c EXCEPT !.lead = <<"lead", c.sys[2], d.ham, c.override>>]
ObserveSys(s) == LET c == WithSys(memo[s], desc[s]) IN
                 Discard(s, c) /\ seen' = (c.sys = FreshSys(desc[s])) /\ UNCHANGED desc
ObserveHam(s) == LET c == WithHam(memo[s], desc[s]) IN
                 Discard(s, c) /\ seen' = (c.ham = FreshHam(desc[s])) /\ UNCHANGED desc
ObserveLead(s) == LET c == WithLead(memo[s], desc[s]) IN
                  Discard(s, c) /\ seen' = (c.lead = FreshLead(desc[s])) /\ UNCHANGED desc
Copy(s, t) == /\ s # t
              /\ desc' = [desc EXCEPT ![t] = desc[s]]
              /\ memo' = [memo EXCEPT ![t] = memo[s]] /\ seen' = TRUE
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E s \in Slots :
             \/ \E v \in 0..MaxV : ChangeStruct(s, v) \/ ChangeHam(s, v) \/ ChangeWave(s, v) \/ Rejected(s, v)
             \/ ObserveSys(s) \/ ObserveHam(s) \/ ObserveLead(s)
             \/ \E t \in Slots : Copy(s, t)
Spec == Init /\ [][Next]_vars
\* what a user sees is what a model which is built from scratch would show
ObservationsFresh == seen
CachesFresh == \A s \in Slots : LET c == memo[s] d == desc[s] IN
  /\ c.sys \in {None, FreshSys(d)} /\ c.ham \in {None, FreshHam(d)} /\ c.lead \in {None, FreshLead(d)}
  /\ (c.override => Dynamic(d))
=============================================================================
