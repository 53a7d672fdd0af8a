------------------------------ MODULE JobsTrace ------------------------------
(***************************************************************************)
(* Recordings of the real job manager: what it starts, waits for and stops *)
(* is followed against what spec/Jobs.tla allows.                          *)
(*   s.plan  what was asked for                                            *)
(*   s.up    processes that are running: records [n, worker]               *)
(*   s.got   jobs started: what their input files say                      *)
(*   s.sig   signals received; s.late: processes started since the first   *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, s
Ev == Trace[i]
P == "C31"
J == INSTANCE Jobs WITH Coordinators <- 0, Workers <- 0, CPU <- 0, MaxSignals <- 0, todo <- 0, pc <- 0, running <- 0, known <- 0, started <- 0, told <- 0, signals <- 0, late <- 0
Start == [plan |-> [jobs |-> << >>, old |-> << >>, cpu |-> 0, valid |-> FALSE], on |-> FALSE, up |-> {}, got |-> << >>, sig |-> 0, late |-> 0]
Ran(f) == { f[k] : k \in DOMAIN f }
Old == Ran(s.plan.old)
Count(t) == LET js == { j \in Ran(s.plan.jobs) : j.type = t } IN IF js = {} THEN 0 ELSE (CHOOSE j \in js : TRUE).dup
Numbers(t) == IF t = "MC" THEN J!WorkerNumbers(Old, Count(t)) ELSE J!CoordinatorNumbers(Count(t))
Asked == { <<j, p>> \in Ran(s.plan.jobs) \X (0..20) : p \in Numbers(j.type) }
---------------------------------------------------------------------------
(* An input file *)
FileBad(c, job) ==
  If(c.pid \in Numbers(c.type), <<P, "a number no job of this kind is to have", c.type, c.pid>>)
  \cup If(c.para = job.para, <<P, "parameters are not those asked for", c.type>>)
  \cup If(c.job = job.job, <<P, "the job is not as asked for", c.type, c.job>>)
  \cup If(c.timers = job.timers /\ \A k \in DOMAIN job.timer : k \in DOMAIN c.timer /\ J!Blurred(c.timer[k], job.timer[k]), <<P, "timers are far from those asked for", c.timer, job.timer>>)
  \cup (IF c.type = "MC" THEN If(c.loads = (IF Old = {} THEN "False" ELSE "True"), <<P, "old statistics are not taken up (or there are none)", c.loads, Old>>)
                              \cup If(c.seed >= 0, <<P, "no seed", c.seed>>) ELSE {})
  \cup If(c.weight \notin {"", "None"} /\ c.message \notin {"", "None"} /\ c.output \notin {"", "None"}, <<P, "without files to exchange data", c>>)
Apart(c, d) ==
  If(c.weight = d.weight /\ c.message = d.message, <<P, "jobs of a project exchange data through different files", c.weight, d.weight, c.message, d.message>>)
  \cup If(c.type # d.type \/ c.pid # d.pid, <<P, "two jobs are the same", c.type, c.pid>>)
  \cup If(c.file # d.file, <<P, "two jobs share an input file", c.file>>)
  \cup If(c.type # "MC" \/ d.type # "MC" \/ c.seed # d.seed, <<P, "two workers have the same seed", c.seed>>)
---------------------------------------------------------------------------
Of(c) == CHOOSE j \in Ran(s.plan.jobs) : j.type = c.type
SpawnBad(e) ==
  IF ~e.c.readable THEN {<<P, "started without an input file of its own", e.c.why>>}
  ELSE IF ~\E j \in Ran(s.plan.jobs) : j.type = e.c.type THEN {<<P, "a job of unknown kind", e.c.type>>}
  ELSE LET job == Of(e.c) IN
       FileBad(e.c, job)
       \cup UNION { Apart(e.c, d) : d \in Ran(s.got) }
       \cup If(s.plan.valid, <<P, "started although what was asked for is refused">>)
       \cup If(job.auto, <<P, "started although it was not to be">>)
       \cup If(job.cluster = e.cluster /\ (e.cluster => e.logged /\ e.pbs = job.pbs), <<P, "not started where or as it was to be", e.cluster, e.logged, e.pbs>>)
       \cup If(e.exe = job.exe /\ e.home, <<P, "another program, or elsewhere", e.exe, job.exe>>)
       \cup If(e.cluster \/ ~job.worker \/ J!Room(Cardinality({ u \in s.up : u.worker }), s.plan.cpu), <<P, "more simulations than processors", s.plan.cpu>>)
       \cup If(~job.worker \/ \A a \in Asked : a[1].worker \/ ~a[1].auto \/ \E d \in Ran(s.got) : d.type = a[1].type /\ d.pid = a[2], <<P, "a worker is started before the coordinator">>)
       \cup If(s.sig = 0 \/ s.late = 0, <<P, "goes on starting jobs after it was asked to stop", e.c.type, e.c.pid>>)
ExitBad(e) ==
  If(s.up = {}, <<P, "leaves while its jobs are running", Cardinality(s.up)>>)
  \cup If(e.code = 0, <<P, "leaves with an error", e.code>>)
  \cup If(s.sig > 0 \/ ~s.plan.valid \/ \A a \in Asked : ~a[1].auto \/ \E d \in Ran(s.got) : d.type = a[1].type /\ d.pid = a[2], <<P, "a job was not started", Asked>>)
  \cup If(s.sig > 0 \/ ~s.plan.valid \/ \A a \in Asked : \E d \in Ran(e.left) : d.readable /\ d.type = a[1].type /\ d.pid = a[2], <<P, "an input file is missing">>)
  \cup If(s.plan.valid \/ s.got = << >>, <<P, "started although what was asked for is refused">>)
  \cup UNION { If(d.readable, <<P, "an incomplete input file", d>>) : d \in Ran(e.left) }
  \cup UNION { IF d.readable THEN FileBad(d, Of(d)) ELSE {} : d \in Ran(e.left) }
KillBad(e) ==
  LET verb == IF e.force THEN "qdel" ELSE "qsig -s SIGTERM"
  IN If(/\ Len(e.cmds) = Len(e.want)
        /\ \A w \in Ran(e.want) : Cardinality({ k \in DOMAIN e.cmds : e.cmds[k] = <<verb, w>> }) = Cardinality({ k \in DOMAIN e.want : e.want[k] = w }),
        <<P, "not every job of the list, and only those, is stopped", e.want, e.cmds>>)
Bad(e) ==
  CASE e.k = "spawn" -> SpawnBad(e)
    [] e.k = "sleep" -> If(s.sig = 0 \/ s.up = {}, <<P, "jobs go on after a request to stop", s.up>>)
    [] e.k = "term" -> If(s.sig > 0, <<P, "a job is stopped that nobody asked to stop", e.n>>)
    [] e.k = "exit" -> ExitBad(e)
    [] e.k = "crash" -> {<<P, "ends in an error", e.why>>}
    [] e.k = "stuck" -> {<<P, "never ends">>}
    [] e.k = "queue" -> {<<P, "a job in the queue does not start its program", e.ran>>}
    [] e.k = "dead" -> {<<P, "killed by a signal", e.rc>>}
    [] e.k = "kill" -> KillBad(e)
    [] e.k = "died" -> {<<P, "died", e.rc>>}
    [] OTHER -> {}
After(e) ==
  CASE e.k = "plan" -> [Start EXCEPT !.plan = e, !.on = TRUE]
    [] e.k = "spawn" -> [s EXCEPT !.up = IF e.cluster THEN @ ELSE @ \cup {[n |-> e.n, worker |-> e.c.readable /\ e.c.type = "MC"]},
                                  !.got = IF e.c.readable THEN Append(@, e.c) ELSE @, !.late = IF s.sig > 0 THEN @ + 1 ELSE @]
    [] e.k = "ended" -> [s EXCEPT !.up = { u \in @ : u.n # e.n }]
    [] e.k = "signal" -> [s EXCEPT !.sig = @ + 1]
    [] OTHER -> s
Init == i = 1 /\ s = Start
Next == i <= Len(Trace) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev)) /\ s' = After(Ev)
Spec == Init /\ [][Next]_<<i, s>>
=============================================================================
