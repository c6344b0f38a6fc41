---------------------------- MODULE MCKpmCache ----------------------------
(* What the KPM core keeps between calculations: the bounds of the spectrum (found when first needed)
   and the Hamiltonian which is optimized for the last indices. Every calculation has to use the present
   Hamiltonian, its bounds and the indices it was given. `Faulty`: design mistakes to be refuted. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Hams, Indices, MaxOps, Faulty
VARIABLES ham, bounds, opt, n, used
vars == <<ham, bounds, opt, n, used>>
None == 0        \* Hamiltonians are 1, 2, ...; a Hamiltonian k has the bounds k as well
NoOpt == <<>>

Init == /\ ham \in Hams /\ bounds = None /\ opt = NoOpt /\ n = 0
        /\ used = <<ham, ham, {}, {}>>
SetHam(h) == /\ ham' = h
             /\ bounds' = IF "keep_bounds" \in Faulty THEN bounds ELSE None
             /\ opt' = IF "keep_opt" \in Faulty THEN opt ELSE NoOpt
             /\ used' = <<h, h, {}, {}>>
Bounds == IF bounds = None THEN ham ELSE bounds
\* optimize for the given source and destinations
Optimized(src, dst) ==
  IF opt # NoOpt /\ opt.src = src /\ (opt.dst = dst \/ "ignore_dst" \in Faulty) THEN opt
  ELSE [ham |-> ham, b |-> Bounds, src |-> src, dst |-> dst]
Calculate(src, dst) ==
  LET o == Optimized(src, dst)
  IN /\ bounds' = Bounds /\ opt' = o
     /\ used' = <<o.ham, o.b, IF src = o.src THEN {} ELSE src, IF dst = o.dst THEN {} ELSE dst>>
     /\ UNCHANGED ham
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \/ \E h \in Hams : SetHam(h)
           \/ \E src, dst \in (SUBSET Indices) \ {{}} : Calculate(src, dst)
Spec == Init /\ [][Next]_vars
UsesPresent == used[1] = ham /\ used[2] = ham
UsesIndices == used[3] = {} /\ used[4] = {}
=============================================================================
