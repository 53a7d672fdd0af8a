------------------------------- MODULE Worker -------------------------------
(***************************************************************************)
(* One Monte Carlo worker and what it shares with the rest of the world:   *)
(* the message and the weight file that the other side publishes, and its  *)
(* own two checkpoint files (parameters with the diagram, and statistics). *)
(*   live   the running process, or Dead: [ver, wt, ins, n, e]             *)
(*          version and weights in use, whether the diagram carries an     *)
(*          insertion, how far the random stream is, samples held          *)
(*   para, stat   the files, or Absent; stat is written after para         *)
(*   msg, wts     what is published: version (0: none), weights (0: none)  *)
(*   saving       between the two files of a save                          *)
(* Statistics are kept as the bag of samples they hold: n counts steps of  *)
(* the stream, e the samples measured since the last squeeze.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxVer, MaxN
VARIABLES live, para, stat, msg, wts, saving, history
vars == <<live, para, stat, msg, wts, saving, history>>
Dead == [ver |-> -1, wt |-> 0, ins |-> FALSE, n |-> 0, e |-> 0]
Absent == [ver |-> -1, ins |-> FALSE, n |-> 0]
NoStat == [e |-> -1, wt |-> 0]
Alive == live # Dead
PartP(w) == [ver |-> w.ver, ins |-> w.ins, n |-> w.n]
PartS(w) == [e |-> w.e, wt |-> 0]
---------------------------------------------------------------------------
(* the rules, also used on recordings of the real worker (WorkerTrace)      *)
\* a message is taken over only if it can be read, is newer, the weights can
\* be read and the diagram carries no insertion
Adopts(ver, ins, mver, readable) == mver > ver /\ readable /\ ~ins
\* a diagram with an insertion is not saved
Saves(ins) == ~ins
---------------------------------------------------------------------------
Fresh == [ver |-> 0, wt |-> wts, ins |-> FALSE, n |-> 0, e |-> 0]
Init == /\ msg = 0 /\ wts = 1 /\ saving = FALSE /\ history = << >>
        /\ live = [ver |-> 0, wt |-> 1, ins |-> FALSE, n |-> 0, e |-> 0]
        /\ para = [ver |-> 0, ins |-> FALSE, n |-> 0] /\ stat = NoStat
Busy == saving
\* the other side
PublishWeights == /\ wts < MaxVer /\ wts' = wts + 1 /\ UNCHANGED <<live, para, stat, msg, saving, history>>
LoseWeights == /\ wts # 0 /\ wts' = 0 /\ UNCHANGED <<live, para, stat, msg, saving, history>>
Publish == /\ msg < MaxVer /\ msg' = msg + 1 /\ UNCHANGED <<live, para, stat, wts, saving, history>>
Withdraw == /\ msg # 0 /\ msg' = 0 /\ UNCHANGED <<live, para, stat, wts, saving, history>>
\* the worker
Hop == /\ Alive /\ ~Busy /\ live.n < MaxN
       /\ \E i \in BOOLEAN : live' = [live EXCEPT !.n = @ + 1, !.ins = i]
       /\ UNCHANGED <<para, stat, msg, wts, saving, history>>
Measure == /\ Alive /\ ~Busy /\ live.e < MaxN /\ live' = [live EXCEPT !.e = @ + 1]
           /\ UNCHANGED <<para, stat, msg, wts, saving, history>>
Listen == /\ Alive /\ ~Busy
          /\ IF Adopts(live.ver, live.ins, msg, wts # 0)
             THEN live' = [live EXCEPT !.ver = msg, !.wt = wts, !.e = 0] /\ history' = Append(history, msg)
             ELSE UNCHANGED <<live, history>>
          /\ UNCHANGED <<para, stat, msg, wts, saving>>
SaveFirst == /\ Alive /\ ~Busy /\ Saves(live.ins) /\ para' = PartP(live) /\ saving' = TRUE
             /\ UNCHANGED <<live, stat, msg, wts, history>>
SaveSecond == /\ Alive /\ Busy /\ stat' = PartS(live) /\ saving' = FALSE
              /\ UNCHANGED <<live, para, msg, wts, history>>
Crash == /\ Alive /\ live' = Dead /\ saving' = FALSE /\ UNCHANGED <<para, stat, msg, wts, history>>
\* the files get lost
Lose == /\ ~Alive /\ \E a \in BOOLEAN : para' = (IF a THEN Absent ELSE para) /\ stat' = NoStat
        /\ UNCHANGED <<live, msg, wts, saving, history>>
\* a new process: what the files say, the input file where there is none.
\* What it adopts from now on starts from the version it finds there.
Restart == /\ ~Alive /\ wts # 0
           /\ live' = [ver |-> IF para = Absent THEN 0 ELSE para.ver, wt |-> wts,
                       ins |-> FALSE, n |-> IF para = Absent THEN 0 ELSE para.n,
                       e |-> IF stat = NoStat THEN 0 ELSE stat.e]
           /\ history' = << >>
           /\ UNCHANGED <<para, stat, msg, wts, saving>>
Next == PublishWeights \/ LoseWeights \/ Publish \/ Withdraw \/ Hop \/ Measure \/ Listen \/ SaveFirst \/ SaveSecond \/ Crash \/ Lose \/ Restart
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
TypeOK == /\ live.ver \in -1..MaxVer /\ msg \in 0..MaxVer /\ wts \in 0..MaxVer
\* C14: versions are adopted in order, none twice
InOrder == \A j \in 1..(Len(history) - 1) : history[j] < history[j + 1]
Current == Alive /\ history # << >> => live.ver = history[Len(history)]
NeverBack == [][live # Dead /\ live' # Dead => live'.ver >= live.ver]_vars
\* C14: all together or nothing
Together == [][(Alive /\ live' # Dead /\ live'.ver # live.ver) =>
                  live'.ver = msg /\ live'.wt = wts /\ wts # 0 /\ ~live.ins /\ live'.n = live.n]_vars
OnlyThen == [][(Alive /\ live' # Dead /\ live'.ver = live.ver) => live'.wt = live.wt]_vars
\* C12: what is on disk never carries an insertion, and is no newer than what
\* the world has seen
NoInsertion == ~para.ins
\* C12: a restart right after a complete save is the same process
Resumes == [][(~Alive /\ live' # Dead /\ para # Absent) => live'.ver = para.ver /\ live'.n = para.n]_vars
=============================================================================
