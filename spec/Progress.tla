------------------------------ MODULE Progress ------------------------------
(* The progress display. While it runs, what is printed to the two streams is kept and put above the bar, which stays
   the last line on the screen and the first line of the log file.
   State: [running, value, size, start, last (times), kept |-> [out, err], screen, log, real |-> [out, err], own]
   A line is <<"text", n>> or <<"bar", value, elapsed>>. `own`: the screen is that of standard output. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Names == {"out", "err"}
Nothing == [out |-> <<>>, err |-> <<>>]
Made(size, display, file) == [running |-> FALSE, value |-> 0, size |-> size, start |-> 0, last |-> 0, kept |-> Nothing, screen |-> <<>>, log |-> <<>>,
                              real |-> Nothing, display |-> display, file |-> file]
Bar(s) == <<"bar", s.value, s.last - s.start>>
Texts(ns) == [i \in DOMAIN ns |-> <<"text", ns[i]>>]
IsBar(line) == line[1] = "bar"
\* the lines on the stream which is the standard output show up there too
Screen(s, more) == IF s.display = "none" THEN s.screen ELSE more
Log(s, more) == IF s.file THEN more ELSE s.log

Refreshed(s) ==
  LET new == Texts(s.kept.out) \o Texts(s.kept.err)
      keep == SubSeq(s.screen, 1, Len(s.screen) - 1)
  IN [s EXCEPT !.kept = Nothing, !.screen = Screen(s, keep \o new \o <<Bar(s)>>), !.log = Log(s, <<Bar(s)>> \o Tail(s.log) \o new)]
Stopped(s) == IF ~s.running THEN s ELSE [Refreshed(s) EXCEPT !.running = FALSE]
\* starting what runs ends the old display first
Started(s, now) ==
  LET old == Stopped(s)
      new == [old EXCEPT !.running = TRUE, !.value = 0, !.start = now, !.last = now]
  IN [new EXCEPT !.screen = Screen(new, @ \o <<Bar(new)>>), !.log = Log(new, <<Bar(new)>>)]
Updated(s, value, now) ==
  LET r == IF s.running THEN s ELSE Started(s, now)
  IN IF r.value = value THEN r ELSE Refreshed([r EXCEPT !.value = value, !.last = now])
Added(s, more, now) == Updated(s, s.value + more, now)
Finished(s, now) == IF ~s.running THEN s ELSE Stopped(Updated(s, s.size, now))
Printed(s, name, ns) ==
  IF s.running THEN [s EXCEPT !.kept[name] = @ \o ns]
  ELSE IF s.display = "stdout" /\ name = "out" THEN [s EXCEPT !.screen = @ \o Texts(ns)]
  ELSE [s EXCEPT !.real[name] = @ \o ns]
==============================================================================
