----------------------------- MODULE MCProgress -----------------------------
(* Design check: nothing which is printed is lost or shown twice, the order of the lines of a stream stays, the bar is
   the last line of a running display and tells the current value, and nothing is kept back once the display has ended. *)
EXTENDS Progress, TLC
CONSTANTS Lines, Size, Displays, Restarts, Faulty

VARIABLES s, out, err, now
vars == <<s, out, err, now>>
Count == Len(out) + Len(err)
Init == s \in {Made(Size, d, f) : d \in Displays, f \in BOOLEAN} /\ out = <<>> /\ err = <<>> /\ now = 0
FaultyStop(x) == IF "stop" \in Faulty /\ x.running THEN [x EXCEPT !.running = FALSE, !.kept = Nothing] ELSE Stopped(x)
FaultyStart(x) == IF "start" \in Faulty /\ x.running THEN Started([x EXCEPT !.running = FALSE, !.kept = Nothing], now) ELSE Started(x, now)
FaultyUpdate(x, v) == IF "update" \in Faulty /\ x.running THEN [x EXCEPT !.value = v] ELSE Updated(x, v, now)
Say(name) == /\ Count < Lines
               /\ s' = Printed(s, name, <<Count + 1>>)
               /\ out' = (IF name = "out" THEN Append(out, Count + 1) ELSE out)
               /\ err' = (IF name = "err" THEN Append(err, Count + 1) ELSE err)
               /\ UNCHANGED now
Tick == now < 2 /\ now' = now + 1 /\ UNCHANGED <<s, out, err>>
Bars == Cardinality({i \in DOMAIN s.screen : IsBar(s.screen[i])})
MayStart == (~s.running => Bars < Restarts) /\ (s.running => Bars < Restarts) /\ (s.file => s.log = <<>>)
Start == MayStart /\ s' = FaultyStart(s) /\ UNCHANGED <<out, err, now>>
Update == \E v \in 0..Size : (s.running \/ MayStart) /\ s' = FaultyUpdate(s, v) /\ UNCHANGED <<out, err, now>>
Refresh == s.running /\ s' = Refreshed(s) /\ UNCHANGED <<out, err, now>>
Stop == s' = FaultyStop(s) /\ UNCHANGED <<out, err, now>>
Finish == s' = Finished(s, now) /\ UNCHANGED <<out, err, now>>
Next == Say("out") \/ Say("err") \/ Tick \/ Start \/ Update \/ Refresh \/ Stop \/ Finish
Spec == Init /\ [][Next]_vars

Shown == [i \in DOMAIN s.screen |-> IF IsBar(s.screen[i]) THEN 0 ELSE s.screen[i][2]]
Increasing(seq) == \A i, j \in DOMAIN seq : i < j => seq[i] < seq[j]
Of(lines, all) == SelectSeq(lines, LAMBDA n : n \in {all[i] : i \in DOMAIN all})
\* every line is in one place, and the lines of a stream come in order
Complete == s.display # "none" => Len(SelectSeq(Shown, LAMBDA n : n # 0)) + Len(s.kept.out) + Len(s.kept.err) + Len(s.real.out) + Len(s.real.err) = Count
Ordered == Increasing(Of(Shown, out) \o s.kept.out) /\ Increasing(Of(Shown, err) \o s.kept.err) /\ Increasing(s.real.out) /\ Increasing(s.real.err)
InLog == s.file /\ s.running => Increasing(Of([i \in 1..Len(s.log) - 1 |-> s.log[i + 1][2]], out) \o s.kept.out)
Released == ~s.running => s.kept = Nothing
OnScreen == s.display # "none" /\ s.running => s.screen[Len(s.screen)] = Bar(s)
FirstInLog == s.file /\ s.running => s.log[1] = Bar(s) /\ \A i \in 2..Len(s.log) : ~IsBar(s.log[i])
==============================================================================
