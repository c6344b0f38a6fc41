----------------------------- MODULE MCMaterials -----------------------------
(* Design check. A walk over a grid collects the phases of the steps: on its return they are the flux through the
   area which it has gone around, wherever the loop is. And hexagons with an even number of atoms along a side have
   armchair edges, bonds of a third of a turn are a third of a turn of the matrices. *)
EXTENDS Materials, TLC
CONSTANTS Size, Steps, Sides, Faulty

VARIABLES start, at, phase, area, n
vars == <<start, at, phase, area, n>>
Grid == ((-Size)..Size) \X ((-Size)..Size)
Init == start \in Grid /\ at = start /\ phase = 0 /\ area = 0 /\ n = 0
Collected(a, b) == IF "one end" \in Faulty THEN 2 * a[2] * (a[1] - b[1])
                   ELSE IF "sum" \in Faulty THEN (a[2] + b[2]) * (a[1] + b[1]) ELSE Phase2(a, b)
Walk == /\ n < Steps
        /\ \E d \in {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 1>>, <<-1, -1>>} :
             LET b == Plus(at, d) IN at' = b /\ phase' = phase + Collected(at, b) /\ area' = area + Area2(at, b)
        /\ n' = n + 1 /\ UNCHANGED start
Next == Walk
Spec == Init /\ [][Next]_vars

Flux == at = start => phase = area
\* the offset which puts the center of a ring of atoms at the origin
Center == <<-2, 0>>
Edges == \A k \in Sides : Armchair(Sites(Corners(k), Center, 2 * k), Center)
Matrix == Whole(<<<<1, -2, 3>>, <<2, 5, -7>>, <<3, 7, 11>>>>)
Full == Turned(Turned(Turned(Matrix, 1), 1), 1) = [i \in 1..3 |-> [j \in 1..3 |-> <<64 * Matrix[i][j][1], 0>>]]
Back == Turned(Turned(Matrix, 1), -1) = [i \in 1..3 |-> [j \in 1..3 |-> <<16 * Matrix[i][j][1], 0>>]]
ASSUME Edges /\ Full /\ Back
==============================================================================
