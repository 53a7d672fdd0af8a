------------------------------- MODULE Timer --------------------------------
(***************************************************************************)
(* class timer.  Time is whole seconds for the interval, hundredths of a   *)
(* second for what is shown.                                               *)
(***************************************************************************)
EXTENDS Integers
VARIABLES running, start, cpu0, acc, now, cpu
\* start: second at which the current interval began; cpu0: cpu time then
tvars == <<running, start, cpu0, acc>>
vars == <<running, start, cpu0, acc, now, cpu>>
HOUR == 3600
Lap(st, c0, t, c) == IF t - st < HOUR THEN c - c0 ELSE 100 * (t - st)
Shown(r, st, c0, a, t, c) == a + (IF r THEN Lap(st, c0, t, c) ELSE 0)

TInit == running = FALSE /\ start = 0 /\ cpu0 = 0 /\ acc = 0
Start(t, c) == IF running THEN UNCHANGED tvars
               ELSE running' = TRUE /\ start' = t /\ cpu0' = c /\ UNCHANGED acc
Restart(t, c) == running' = TRUE /\ start' = t /\ cpu0' = c /\ acc' = 0
Stop(t, c) == /\ acc' = Shown(running, start, cpu0, acc, t, c)
              /\ running' = FALSE
              /\ UNCHANGED <<start, cpu0>>
Fires(int, t) == t - start >= int
\* only for a running timer
Check(int, t, c) == IF Fires(int, t) THEN Restart(t, c) ELSE UNCHANGED tvars

CONSTANTS Ints, MaxNow
Init == TInit /\ now = 0 /\ cpu = 0
Tick == now < MaxNow /\ now' = now + 1 /\ (cpu' = cpu + 100 \/ cpu' = cpu) /\ UNCHANGED tvars
Next == \/ Tick
        \/ UNCHANGED <<now, cpu>> /\ (\/ Start(now, cpu) \/ Restart(now, cpu) \/ Stop(now, cpu)
                                      \/ (running /\ \E n \in Ints : Check(n, now, cpu)))
Spec == Init /\ [][Next]_vars
Sane == start <= now /\ cpu0 <= cpu /\ acc >= 0
Monotone == [][(now' # now) => Shown(running', start', cpu0', acc', now', cpu') >= Shown(running, start, cpu0, acc, now, cpu)]_vars
\* starting and stopping lose no time
Steady == [][(running' # running) => Shown(running', start', cpu0', acc', now', cpu') = Shown(running, start, cpu0, acc, now, cpu)
                                      \/ acc' = 0]_vars
=============================================================================
