------------------------------- MODULE MCPlots -------------------------------
(* Design check: drawing the translation units level by level draws each unit once and never misses a
   connection of a unit which is nearer than the last level; whatever the shifts are (parallel, inverse
   or dependent ones too). A connection is drawn next to a unit of the previous level only. *)
EXTENDS Plots, TLC
CONSTANTS Size, Periods, Faulty

VARIABLES shifts, level, units, joins, twice
vars == <<shifts, level, units, joins, twice>>
Vectors == {<<x, y, 0>> : x \in 0..Size, y \in (-Size)..Size} \ {Zero3}
Init == /\ shifts \in {s \in SUBSET Vectors : Cardinality(s) \in 1..2}
        /\ level = 1 /\ units = {Zero3} /\ joins = {} /\ twice = FALSE

\* the sums of n steps which were not reached before, as drawn
RECURSIVE Reached(_)
Reached(n) == IF n = 0 THEN {Zero3}
              ELSE LET sums == {Plus(c, s) : c \in Reached(n - 1), s \in (IF "forward" \in Faulty THEN shifts ELSE Steps(shifts))}
                   IN IF "return" \in Faulty THEN sums ELSE sums \ UNION {Reached(k) : k \in (IF "recent" \in Faulty THEN {n - 1} ELSE 0..(n - 1))}
Now == Reached(level)
Before == Reached(level - 1)
\* <<boundary, c>>: between c + boundary and c
NewJoins == {q \in shifts \X (Now \cup Before \cup {Minus(c, s) : c \in Now \cup Before, s \in shifts}) :
               LET far == Plus(q[2], q[1])
               IN \/ (q[2] \in Now \cup Before /\ far \in Before)
                  \/ ("oneway" \notin Faulty /\ far \in Now \cup Before /\ q[2] \in Before)}
Draw == /\ level <= Periods
        /\ units' = units \cup Now /\ twice' = (twice \/ Now \cap units # {})
        /\ joins' = joins \cup NewJoins /\ level' = level + 1 /\ UNCHANGED shifts
Next == Draw
Spec == Init /\ [][Next]_vars

All == Units(shifts, level - 1)
Near == IF level = 1 THEN {} ELSE Units(shifts, level - 2)
\* the other way to say which units there are: those within the span
Coefficients == IF Cardinality(shifts) = 1 THEN {<<i, 0>> : i \in (1 - level)..(level - 1)}
                ELSE {q \in ((1 - level)..(level - 1)) \X ((1 - level)..(level - 1)) : (IF q[1] < 0 THEN -q[1] ELSE q[1]) + (IF q[2] < 0 THEN -q[2] ELSE q[2]) < level}
Span == LET a == CHOOSE s \in shifts : TRUE
            b == IF Cardinality(shifts) = 1 THEN Zero3 ELSE CHOOSE s \in shifts : s # a
        IN {Plus(Scaled(q[1], a), Scaled(q[2], b)) : q \in Coefficients}
Inv == /\ ~twice /\ units = All /\ All = Span
       /\ \A q \in joins : MayJoin(q[1], q[2], All)
       /\ \A s \in shifts : \A c \in All \cup {Minus(d, s) : d \in All} : MustJoin(s, c, Near, All) => <<s, c>> \in joins
       /\ \A c \in All : Minus(Zero3, c) \in All
==============================================================================
