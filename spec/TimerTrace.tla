----------------------------- MODULE TimerTrace -----------------------------
(* Recordings of the real class timer, on a clock of the driver's own. *)
EXTENDS TraceLib
VARIABLES i, running, start, cpu0, acc
T == INSTANCE Timer WITH now <- 0, cpu <- 0, Ints <- {}, MaxNow <- 0
vars == <<i, running, start, cpu0, acc>>
Ev == Trace[i]
Step(e) ==
  CASE e.k = "new" -> running' = FALSE /\ start' = 0 /\ cpu0' = 0 /\ acc' = 0
    [] e.k = "start" -> T!Start(e.sec, e.cpu)
    [] e.k = "restart" -> T!Restart(e.sec, e.cpu)
    [] e.k = "stop" -> T!Stop(e.sec, e.cpu)
    [] e.k = "check" /\ running -> T!Check(e.int, e.sec, e.cpu)
    \* an idle timer: what check answers is not specified, but firing starts it
    [] e.k = "check" -> IF e.fired THEN T!Restart(e.sec, e.cpu) ELSE UNCHANGED <<running, start, cpu0, acc>>
    [] OTHER -> UNCHANGED <<running, start, cpu0, acc>>
Bad(e) ==
  IF e.k \in {"new", "end"} THEN {}
  ELSE If(e.k = "check" /\ running => e.fired = T!Fires(e.int, e.sec),
          <<"C21", IF e.k = "check" /\ e.fired THEN "fired early" ELSE "did not fire">>)
       \cup If(e.shown = T!Shown(running', start', cpu0', acc', e.sec, e.cpu), <<"C21", "elapsed time", e.k, e.shown>>)
Init == i = 1 /\ running = FALSE /\ start = 0 /\ cpu0 = 0 /\ acc = 0
Next == /\ i <= Len(Trace)
        /\ Step(Ev)
        /\ i' = i + 1
        /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
