----------------------------- MODULE Coordinator -----------------------------
(***************************************************************************)
(* The self-consistency loop (dyson/main.py): rounds numbered by versions, *)
(* each of which collects what the workers have measured, merges it into   *)
(* the running averages, and publishes weights, its own parameters and at  *)
(* last the message that makes the workers change over.  A round can fail  *)
(* (statistics that cannot be used, a denominator touching zero), a save   *)
(* can fail, and the process can die anywhere and be started again.        *)
(*   ver    the version of the round under way                             *)
(*   inst, smooth   the rounds <<life, version>> the instantaneous          *)
(*          self-energy and the polarization in memory are averages of     *)
(*   wf     the weight file: <<version, rounds it is made of>>; pf, msg    *)
(*   pc     where in the round the process is; "dead"                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxVer, MaxDeaths
VARIABLES pc, ver, inst, smooth, wf, pf, msg, failed, said, saved, deaths, seen
vars == <<pc, ver, inst, smooth, wf, pf, msg, failed, said, saved, deaths, seen>>
None == [ver |-> 0, inst |-> {}, smooth |-> {}]
---------------------------------------------------------------------------
(* the rules, also used on recordings of the real loop (CoordTrace)         *)
\* rounds are averaged with the weight v/(v+10), in units of 1/5000
Ratio(v) == (5000 * v) \div (v + 10)
\* at least three quarters of the files have to be usable
Enough(good, all) == all > 0 /\ 4 * good >= 3 * all
\* the version before a restart, by what is left of the parameter file
Resumes(p) == p
\* the factor the workers rescale their statistics by, times 10^6
Squeeze(v) == 1000000 + (3 * 1000000) \div (v + 1)
---------------------------------------------------------------------------
Init == /\ pc = "idle" /\ ver = 0 /\ inst = {} /\ smooth = {} /\ wf = None /\ pf = 0 /\ msg = 0
        /\ failed = {} /\ said = << >> /\ saved = {} /\ deaths = 0 /\ seen = 0
\* a round of this life
Round == <<deaths, ver>>
Begin == /\ pc = "idle" /\ ver < MaxVer /\ ver' = ver + 1 /\ inst' = inst \cup {<<deaths, ver + 1>>} /\ pc' = "begun"
         /\ UNCHANGED <<smooth, wf, pf, msg, failed, said, saved, deaths, seen>>
\* failures undo what this round has merged, and nothing else
Back == /\ inst' = inst \ {Round} /\ smooth' = smooth \ {Round} /\ failed' = failed \cup {Round} /\ pc' = "idle"
        /\ UNCHANGED <<ver, wf, pf, msg, said, saved, deaths, seen>>
CollectFails == pc = "begun" /\ Back
Collect == /\ pc = "begun" /\ smooth' = smooth \cup {Round} /\ pc' = "merged"
           /\ UNCHANGED <<ver, inst, wf, pf, msg, failed, said, saved, deaths, seen>>
Touch == pc = "merged" /\ Back
Solve == /\ pc = "merged" /\ pc' = "solved" /\ saved' = {} /\ UNCHANGED <<ver, inst, smooth, wf, pf, msg, failed, said, deaths, seen>>
SaveWeights == /\ pc = "solved" /\ "w" \notin saved /\ wf' = [ver |-> ver, inst |-> inst, smooth |-> smooth] /\ saved' = saved \cup {"w"}
               /\ UNCHANGED <<pc, ver, inst, smooth, pf, msg, failed, said, deaths, seen>>
SavePara == /\ pc = "solved" /\ "p" \notin saved /\ pf' = ver /\ saved' = saved \cup {"p"}
            /\ UNCHANGED <<pc, ver, inst, smooth, wf, msg, failed, said, deaths, seen>>
\* a save fails: nothing is said, but the round counts
SaveFails == /\ pc = "solved" /\ saved # {"w", "p"} /\ pc' = "idle" /\ UNCHANGED <<ver, inst, smooth, wf, pf, msg, failed, said, saved, deaths, seen>>
Say == /\ pc = "solved" /\ saved = {"w", "p"} /\ msg' = ver /\ said' = Append(said, ver) /\ pc' = "idle"
       /\ UNCHANGED <<ver, inst, smooth, wf, pf, failed, saved, deaths, seen>>
Die == /\ pc # "dead" /\ deaths < MaxDeaths /\ pc' = "dead" /\ deaths' = deaths + 1
       /\ UNCHANGED <<ver, inst, smooth, wf, pf, msg, failed, said, saved, seen>>
\* the averages are not saved with their weights: they begin again
Restart == /\ pc = "dead" /\ pc' = "idle" /\ ver' = Resumes(pf) /\ inst' = {} /\ smooth' = {}
           /\ UNCHANGED <<wf, pf, msg, failed, said, saved, deaths, seen>>
\* a worker takes over what is published
Adopt == /\ msg > seen /\ seen' = msg /\ UNCHANGED <<pc, ver, inst, smooth, wf, pf, msg, failed, said, saved, deaths>>
Next == Begin \/ CollectFails \/ Collect \/ Touch \/ Solve \/ SaveWeights \/ SavePara \/ SaveFails \/ Say \/ Die \/ Restart \/ Adopt
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
TypeOK == /\ pc \in {"idle", "begun", "merged", "solved", "dead"} /\ ver \in 0..MaxVer /\ inst \subseteq (0..MaxDeaths) \X (1..MaxVer) /\ smooth \subseteq (0..MaxDeaths) \X (1..MaxVer)
\* whoever believes a message finds weights at least as new, and the coordinator started again goes on beyond it
Backed == msg > 0 => wf.ver >= msg /\ pf >= msg
Increasing == \A j \in 1..(Len(said) - 1) : said[j] < said[j + 1]
\* what is published is made of rounds that succeeded, the same for all parts
Clean == wf.inst = wf.smooth /\ wf.inst \cap failed = {}
Steady == pc = "idle" => inst = smooth
=============================================================================
