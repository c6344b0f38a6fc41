--------------------------- MODULE MCParallelFor ---------------------------
(* parallel_for as it is made: one producing thread, workers and one reporting thread, connected by two
   queues. A critical section of a queue is one step, waiting for a condition variable releases the mutex
   and joins the waiters in the same step, and a notification is a step of its own after the section.
   Waiters may wake up spuriously. `Faulty`: design mistakes to be refuted:
     close_one    closing the queue notifies only one waiter
     no_pop_note  pop does not notify the waiting producer
     no_recheck   whoever is woken up does not look at the condition again
     close_any    the queue is closed as soon as any producer leaves
     drop_rest    a closed queue does not give out what is left in it
     late_guard   a worker registers as a producer of the second queue only when it has got a job
   (note_early, push notifies before it inserts, is not a mistake here: the last waiters are woken when the
   queue is closed; it would be one for jobs which wait for each other.) *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Size, W, Cap, Spurious, Faulty
VARIABLES pc, job, work, ret, cw, pw, cr, made, computed, retired, spur
vars == <<pc, job, work, ret, cw, pw, cr, made, computed, retired, spur>>

Producer == 0
Workers == 1..W
Reporter == W + 1
Threads == 0..(W + 1)
Empty == [q |-> <<>>, prod |-> 0, closed |-> FALSE]
F(x) == x \in Faulty

Init == /\ pc = [t \in Threads |-> IF t = Producer THEN "p_add" ELSE IF t = Reporter THEN "r_pop"
                                   ELSE IF F("late_guard") THEN "w_pop" ELSE "w_add"]
        /\ job = [t \in Threads |-> 0] /\ work = Empty /\ ret = Empty
        /\ cw = {} /\ pw = {} /\ cr = {} /\ made = 0 /\ computed = <<>> /\ retired = <<>> /\ spur = Spurious

Go(t, next) == pc' = [pc EXCEPT ![t] = next]
Add(s) == [s EXCEPT !.prod = @ + 1, !.closed = FALSE]
Rem(s) == [s EXCEPT !.prod = @ - 1, !.closed = IF s.prod - 1 <= 0 \/ F("close_any") THEN TRUE ELSE @]
\* the place to go on after a notification
Wake(t) == CASE pc[t] = "w_wait" -> IF F("no_recheck") THEN "w_take" ELSE "w_pop"
             [] pc[t] = "p_wait" -> IF F("no_recheck") THEN "p_put" ELSE "p_push"
             [] pc[t] = "r_wait" -> IF F("no_recheck") THEN "r_take" ELSE "r_pop"
             [] OTHER -> pc[t]
WakeSet(S, t, next) == [u \in Threads |-> IF u \in S THEN Wake(u) ELSE IF u = t THEN next ELSE pc[u]]

PAdd == pc[0] = "p_add" /\ work' = Add(work) /\ Go(0, "p_make") /\ UNCHANGED <<job, ret, cw, pw, cr, made, computed, retired, spur>>
PMake == /\ pc[0] = "p_make"
         /\ IF made < Size THEN made' = made + 1 /\ job' = [job EXCEPT ![0] = made + 1]
                                /\ Go(0, IF F("note_early") THEN "p_note" ELSE "p_push")
            ELSE Go(0, "p_rem") /\ UNCHANGED <<made, job>>
         /\ UNCHANGED <<work, ret, cw, pw, cr, computed, retired, spur>>
PPush == /\ pc[0] = "p_push"
         /\ IF Len(work.q) < Cap
            THEN /\ work' = [work EXCEPT !.q = Append(@, job[0])]
                 /\ Go(0, IF F("note_early") THEN "p_make" ELSE "p_note") /\ UNCHANGED pw
            ELSE pw' = pw \cup {0} /\ Go(0, "p_wait") /\ UNCHANGED work
         /\ UNCHANGED <<job, ret, cw, cr, made, computed, retired, spur>>
PPut == pc[0] = "p_put" /\ work' = [work EXCEPT !.q = Append(@, job[0])] /\ Go(0, "p_note")
        /\ UNCHANGED <<job, ret, cw, pw, cr, made, computed, retired, spur>>
\* notify_one of the consumers
PNote == /\ pc[0] = "p_note"
         /\ LET next == IF F("note_early") THEN "p_push" ELSE "p_make"
            IN IF cw = {} THEN Go(0, next) /\ UNCHANGED cw
               ELSE \E u \in cw : cw' = cw \ {u} /\ pc' = WakeSet({u}, 0, next)
         /\ UNCHANGED <<job, work, ret, pw, cr, made, computed, retired, spur>>
PRem == pc[0] = "p_rem" /\ work' = Rem(work) /\ Go(0, "p_remn") /\ UNCHANGED <<job, ret, cw, pw, cr, made, computed, retired, spur>>
PRemNote == /\ pc[0] = "p_remn"
            /\ IF cw = {} THEN Go(0, "done") /\ UNCHANGED cw
               ELSE IF F("close_one") THEN \E u \in cw : cw' = cw \ {u} /\ pc' = WakeSet({u}, 0, "done")
               ELSE cw' = {} /\ pc' = WakeSet(cw, 0, "done")
            /\ UNCHANGED <<job, work, ret, pw, cr, made, computed, retired, spur>>

WAdd(w) == pc[w] = "w_add" /\ ret' = Add(ret) /\ Go(w, IF F("late_guard") THEN "w_comp" ELSE "w_pop")
           /\ UNCHANGED <<job, work, cw, pw, cr, made, computed, retired, spur>>
CanTake(s) == s.q # <<>> /\ ~(F("drop_rest") /\ s.closed)
TakeWork(w) == /\ work' = [work EXCEPT !.q = Tail(@)] /\ job' = [job EXCEPT ![w] = Head(work.q)] /\ Go(w, "w_note")
               /\ UNCHANGED cw
WPop(w) == /\ pc[w] = "w_pop"
           /\ IF CanTake(work) THEN TakeWork(w)
              ELSE IF work.closed THEN Go(w, IF F("late_guard") /\ job[w] = 0 THEN "done" ELSE "w_rem") /\ UNCHANGED <<job, work, cw>>
              ELSE cw' = cw \cup {w} /\ Go(w, "w_wait") /\ UNCHANGED <<job, work>>
           /\ UNCHANGED <<ret, pw, cr, made, computed, retired, spur>>
WTake(w) == /\ pc[w] = "w_take"
            /\ IF work.q # <<>> THEN TakeWork(w) ELSE Go(w, "w_rem") /\ UNCHANGED <<job, work, cw>>
            /\ UNCHANGED <<ret, pw, cr, made, computed, retired, spur>>
WNote(w) == /\ pc[w] = "w_note"
            /\ LET next == IF F("late_guard") THEN "w_add" ELSE "w_comp"
               IN IF pw = {} \/ F("no_pop_note") THEN Go(w, next) /\ UNCHANGED pw
                  ELSE pw' = {} /\ pc' = WakeSet(pw, w, next)
            /\ UNCHANGED <<job, work, ret, cw, cr, made, computed, retired, spur>>
WComp(w) == pc[w] = "w_comp" /\ computed' = Append(computed, job[w]) /\ Go(w, "w_push")
            /\ UNCHANGED <<job, work, ret, cw, pw, cr, made, retired, spur>>
WPush(w) == pc[w] = "w_push" /\ ret' = [ret EXCEPT !.q = Append(@, job[w])] /\ Go(w, "w_pushn")
            /\ UNCHANGED <<job, work, cw, pw, cr, made, computed, retired, spur>>
WPushNote(w) == /\ pc[w] = "w_pushn" /\ cr' = {}
                /\ pc' = WakeSet(cr, w, IF F("late_guard") THEN "w_rem" ELSE "w_pop")
                /\ UNCHANGED <<job, work, ret, cw, pw, made, computed, retired, spur>>
WRem(w) == pc[w] = "w_rem" /\ ret' = Rem(ret) /\ Go(w, "w_remn")
           /\ UNCHANGED <<job, work, cw, pw, cr, made, computed, retired, spur>>
WRemNote(w) == /\ pc[w] = "w_remn" /\ cr' = {}
               /\ pc' = WakeSet(cr, w, IF F("late_guard") /\ ~work.closed THEN "w_pop" ELSE "done")
               /\ UNCHANGED <<job, work, ret, cw, pw, made, computed, retired, spur>>

R == Reporter
TakeRet == ret' = [ret EXCEPT !.q = Tail(@)] /\ job' = [job EXCEPT ![R] = Head(ret.q)] /\ Go(R, "r_ret") /\ UNCHANGED cr
RPop == /\ pc[R] = "r_pop"
        /\ IF CanTake(ret) THEN TakeRet
           ELSE IF ret.closed THEN Go(R, "done") /\ UNCHANGED <<job, ret, cr>>
           ELSE cr' = cr \cup {R} /\ Go(R, "r_wait") /\ UNCHANGED <<job, ret>>
        /\ UNCHANGED <<work, cw, pw, made, computed, retired, spur>>
RTake == /\ pc[R] = "r_take"
         /\ IF ret.q # <<>> THEN TakeRet ELSE Go(R, "done") /\ UNCHANGED <<job, ret, cr>>
         /\ UNCHANGED <<work, cw, pw, made, computed, retired, spur>>
RRet == pc[R] = "r_ret" /\ retired' = Append(retired, job[R]) /\ Go(R, "r_pop")
        /\ UNCHANGED <<job, work, ret, cw, pw, cr, made, computed, spur>>

Spuriously == /\ spur > 0 /\ spur' = spur - 1
              /\ \E u \in cw \cup pw \cup cr : /\ cw' = cw \ {u} /\ pw' = pw \ {u} /\ cr' = cr \ {u}
                                               /\ pc' = [pc EXCEPT ![u] = Wake(u)]
              /\ UNCHANGED <<job, work, ret, made, computed, retired>>

ThreadStep(t) ==
  CASE t = Producer -> PAdd \/ PMake \/ PPush \/ PPut \/ PNote \/ PRem \/ PRemNote
    [] t = Reporter -> RPop \/ RTake \/ RRet
    [] OTHER -> WAdd(t) \/ WPop(t) \/ WTake(t) \/ WNote(t) \/ WComp(t) \/ WPush(t) \/ WPushNote(t) \/ WRem(t) \/ WRemNote(t)
Next == Spuriously \/ \E t \in Threads : ThreadStep(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(ThreadStep(t))

Done == \A t \in Threads : pc[t] = "done"
SetOf(s) == {s[i] : i \in 1..Len(s)}
Once == /\ Cardinality(SetOf(computed)) = Len(computed) /\ Cardinality(SetOf(retired)) = Len(retired)
        /\ SetOf(retired) \subseteq SetOf(computed) /\ SetOf(computed) \subseteq 1..made
Bounded == Len(work.q) <= Cap
Complete == Done => SetOf(retired) = 1..Size
\* nobody waits although it could go on, when nobody else can do anything any more
Waiting(t) == pc[t] \in {"w_wait", "p_wait", "r_wait"}
NotStuck == (\A t \in Threads : Waiting(t) \/ pc[t] = "done") => Done
Ends == <>Done
=============================================================================
