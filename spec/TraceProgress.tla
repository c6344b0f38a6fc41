---------------------------- MODULE TraceProgress ----------------------------
(* What the progress display shows. *)
EXTENDS Progress, Json, IOUtils, TLC

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, st
Ev(t, i) == Traces[t].ev[i]
Iabs(x) == IF x < 0 THEN -x ELSE x
Begin == [p |-> Made(1, "own", FALSE), now |-> 0, width |-> 0]

After(s, e) ==
  LET p == s.p IN
  CASE e.op = "make" -> [p |-> [Made(e.size, e.display, e.file) EXCEPT !.start = s.now, !.last = s.now], now |-> s.now, width |-> e.width]
    [] e.op = "tick" -> [s EXCEPT !.now = @ + e.seconds]
    [] e.op \in {"start", "enter"} -> [s EXCEPT !.p = Started(p, s.now)]
    [] e.op = "update" -> [s EXCEPT !.p = Updated(p, e.value, s.now)]
    [] e.op = "add" -> [s EXCEPT !.p = Added(p, e.value, s.now)]
    [] e.op = "refresh" -> [s EXCEPT !.p = Refreshed(p)]
    [] e.op \in {"stop", "exit"} -> [s EXCEPT !.p = Stopped(p)]
    [] e.op = "finish" -> [s EXCEPT !.p = Finished(p, s.now)]
    [] e.op = "print" -> [s EXCEPT !.p = Printed(p, e.stream, e.lines)]

\* a bar which was seen: <<"bar", percent, <<<<marks, width>>, ...>>, elapsed, remaining (-1: not known), length>>
Fits(seen, line, size, width) ==
  /\ seen[1] = line[1]
  /\ IF ~IsBar(line) THEN seen = line
     ELSE LET value == line[2]  took == line[3] IN
       /\ 2 * Iabs(seen[2] * size - 100 * value) <= size
       /\ \A k \in DOMAIN seen[3] : LET marks == seen[3][k][1]  w == seen[3][k][2] IN
            w > 0 /\ marks <= w /\ Iabs(marks * size - value * w) <= size /\ (value = size => marks = w) /\ (value = 0 => marks = 0)
       /\ seen[4] = took
       /\ IF value = 0 THEN seen[5] = -1 ELSE seen[5] >= 0 /\ Iabs(seen[5] * value - took * (size - value)) <= value
       /\ seen[6] = width
AllFit(seen, lines, size, width) == Len(seen) = Len(lines) /\ \A i \in DOMAIN lines : Fits(seen[i], lines[i], size, width)

Mismatch(s, e) ==
  LET p == s.p IN
  IF e.res # "ok" THEN "fails"
  ELSE CASE e.obs.running # p.running \/ e.obs.value # p.value -> "value"
    [] ~AllFit(e.obs.screen, p.screen, p.size, s.width) -> "screen"
    [] ~AllFit(e.obs.log, p.log, p.size, s.width) -> "log file"
    [] e.obs.out # p.real.out \/ e.obs.err # p.real.err -> "lines of the streams"
    [] e.obs.captured # p.running -> "streams"
    [] e.op = "enter" /\ ~e.obs.same -> "with statement"
    [] OTHER -> ""

Init == tid \in 1..Len(Traces) /\ l = 1 /\ st = Begin
Next ==
  /\ l >= 1 /\ l <= Len(Traces[tid].ev)
  /\ LET e == Ev(tid, l)
         s == After(st, e)
         why == Mismatch(s, e)
     IN IF why = "" THEN
           /\ l' = l + 1 /\ st' = s /\ UNCHANGED tid
           /\ l = Len(Traces[tid].ev) => PrintT("ACCEPT " \o ToString(tid))
        ELSE
           /\ PrintT("REJECT " \o ToString(tid) \o " event " \o ToString(l) \o " (" \o e.op \o "): " \o why)
           /\ l' = 0 /\ UNCHANGED <<tid, st>>
Spec == Init /\ [][Next]_<<tid, l, st>>
===============================================================================
