------------------------------ MODULE Program -------------------------------
(***************************************************************************)
(* A run of the program.  After so many measurements (a block) it looks at *)
(* the time and does what is due: the self-check, the checkpoint, the look *)
(* for a message, the reweighting, each by an interval of its own.  A      *)
(* request to stop takes effect at once, but for the checkpoint, which is  *)
(* of two files and is completed first.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
BLOCK == 100
Acts == {"check", "save", "listen", "reweight"}
Due(ti, last, now, a) == now - last[a] >= ti[a]
After(ti, last, now) == [a \in Acts |-> IF Due(ti, last, now, a) THEN now ELSE last[a]]
\* the checkpoint is not written, and a message not adopted, while an insertion is there
Saves(ti, last, now, ins) == Due(ti, last, now, "save") /\ ~ins
Adopts(ti, last, now, ins, ver, msg) == Due(ti, last, now, "listen") /\ ~ins /\ msg.have /\ msg.ver > ver

(* The design, in small *)
CONSTANTS MaxInt, MaxNow, MaxBlocks
VARIABLES ti, last, now, pc, n, files, sig, delay, sane, done
vars == <<ti, last, now, pc, n, files, sig, delay, sane, done>>
Order == <<"check", "save1", "save2", "listen", "reweight">>
Init == /\ ti \in [Acts -> 0..MaxInt] /\ now = 0 /\ last = [a \in Acts |-> 0]
        /\ pc = "measure" /\ n = 0 /\ files = <<0, 0>> /\ sig = FALSE /\ delay = FALSE /\ sane = TRUE
        /\ done = [a \in Acts |-> 0]
Did(a) == last' = [last EXCEPT ![a] = now] /\ done' = [done EXCEPT ![a] = n]
Measure == /\ pc = "measure" /\ n < MaxBlocks /\ n' = n + 1 /\ pc' = "check"
           /\ (\E d \in 0..2 : now + d <= MaxNow /\ now' = now + d)
           /\ UNCHANGED <<ti, last, files, sig, delay, sane, done>>
Check == /\ pc = "check"
         /\ IF Due(ti, last, now, "check") THEN Did("check") /\ pc' = (IF sane THEN "save1" ELSE "dead")
            ELSE UNCHANGED <<last, done>> /\ pc' = "save1"
         /\ UNCHANGED <<ti, now, n, files, sig, delay, sane>>
Save1 == /\ pc = "save1"
         /\ IF Due(ti, last, now, "save") THEN Did("save") /\ delay' = TRUE /\ files' = <<n, files[2]>> /\ pc' = "save2"
            ELSE UNCHANGED <<last, done, delay, files>> /\ pc' = "listen"
         /\ UNCHANGED <<ti, now, n, sig, sane>>
Save2 == pc = "save2" /\ files' = <<files[1], n>> /\ delay' = FALSE /\ pc' = (IF sig THEN "stopped" ELSE "listen")
         /\ UNCHANGED <<ti, last, now, n, sig, sane, done>>
Listen == pc = "listen" /\ (IF Due(ti, last, now, "listen") THEN Did("listen") ELSE UNCHANGED <<last, done>>) /\ pc' = "reweight"
          /\ UNCHANGED <<ti, now, n, files, sig, delay, sane>>
Reweight == pc = "reweight" /\ (IF Due(ti, last, now, "reweight") THEN Did("reweight") ELSE UNCHANGED <<last, done>>) /\ pc' = "measure"
            /\ UNCHANGED <<ti, now, n, files, sig, delay, sane>>
Signal == pc \notin {"stopped", "dead"} /\ ~sig /\ sig' = TRUE /\ pc' = (IF delay THEN pc ELSE "stopped")
          /\ UNCHANGED <<ti, last, now, n, files, delay, sane, done>>
Break == pc = "measure" /\ sane /\ sane' = FALSE /\ UNCHANGED <<ti, last, now, pc, n, files, sig, delay, done>>
Next == Measure \/ Check \/ Save1 \/ Save2 \/ Listen \/ Reweight \/ Signal \/ Break
Spec == Init /\ [][Next]_vars
\* whenever a checkpoint is not being written its files are of one moment
Whole == ~delay => files[1] = files[2]
\* between blocks nothing that was due at the last look is left
Prompt == pc = "measure" /\ n > 0 => \A a \in Acts : now - last[a] < ti[a] \/ done[a] = n
NotEarly == [][\A a \in Acts : last'[a] # last[a] => now - last[a] >= ti[a]]_vars
\* nothing of an inconsistent diagram is kept for longer than the check's interval
Caught == pc = "measure" /\ ~sane => now - last["check"] <= ti["check"] + 2
Stops == sig => (pc = "stopped" \/ delay \/ pc = "dead")
=============================================================================
