-------------------------------- MODULE Jobs --------------------------------
(***************************************************************************)
(* The job manager: it starts the coordinators, then workers as long as    *)
(* there are processors, looks now and then which jobs have ended, and     *)
(* leaves when all have.  A request to stop (a signal) may arrive between  *)
(* any two steps, more than once: all jobs it knows are stopped and waited *)
(* for within the handler; a job whose start is under way is known to      *)
(* nobody yet, and must be stopped when it is.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Coordinators, Workers, CPU, MaxSignals
VARIABLES todo,      \* jobs to start, in order
          pc,        \* what the manager is about to do
          running,   \* processes that run
          known,     \* those the manager keeps in its lists
          started,   \* jobs ever started, in order
          told,      \* those told to end
          signals, late
vars == <<todo, pc, running, known, started, told, signals, late>>
---------------------------------------------------------------------------
(* What jobs are numbered *)
Smallest(S, n) == { p \in S : Cardinality({ q \in S : q < p }) < n }
\* workers whose statistics are there go on; new ones are counted from zero
WorkerNumbers(old, n) == IF old = {} THEN 0..(n - 1) ELSE Smallest(old, n)
CoordinatorNumbers(n) == IF n > 0 THEN {0} ELSE {}
\* timers are blurred by a fifth, and whole
Blurred(t, asked) == 5 * (t + 1) >= 4 * asked /\ 5 * t <= 6 * asked
Room(up, cpu) == up < cpu
---------------------------------------------------------------------------
IsWorker(j) == j > Coordinators
Jobs == 1..(Coordinators + Workers)
Init == /\ todo = [k \in Jobs |-> k] /\ pc = "next" /\ running = {} /\ known = {} /\ started = << >> /\ told = {} /\ signals = 0 /\ late = 0
Stopping == signals > 0
NextJob ==
  /\ pc = "next"
  /\ pc' = IF Stopping \/ todo = << >> THEN "drain"
           ELSE IF IsWorker(Head(todo)) /\ ~Room(Cardinality({ j \in known : IsWorker(j) }), CPU) THEN "look" ELSE "start"
  /\ UNCHANGED <<todo, running, known, started, told, signals, late>>
StartJob ==
  /\ pc = "start"
  /\ running' = running \cup {Head(todo)} /\ started' = Append(started, Head(todo)) /\ pc' = "register"
  /\ late' = IF Stopping THEN late + 1 ELSE late
  /\ UNCHANGED <<todo, known, told, signals>>
Register ==
  /\ pc = "register"
  /\ known' = known \cup {Head(todo)} /\ pc' = "settle"
  /\ UNCHANGED <<todo, running, started, told, signals, late>>
\* asked to stop while the job was being started?
Settle ==
  /\ pc = "settle"
  /\ IF Stopping THEN running' = running \ {Head(todo)} /\ told' = told \cup ({Head(todo)} \cap running) ELSE UNCHANGED <<running, told>>
  /\ todo' = Tail(todo) /\ pc' = "next"
  /\ UNCHANGED <<known, started, signals, late>>
\* which have ended? some may be overlooked, not all
Look ==
  /\ pc \in {"look", "drain"}
  /\ \E S \in SUBSET (known \ running) : (S # {} \/ known \subseteq running) /\ known' = known \ S
  /\ pc' = IF pc = "look" THEN "next" ELSE IF known' = {} THEN "left" ELSE "drain"
  /\ UNCHANGED <<todo, running, started, told, signals, late>>
\* of its own accord
Ends(j) == j \in running /\ running' = running \ {j} /\ UNCHANGED <<todo, pc, known, started, told, signals, late>>
Signal ==
  /\ signals < MaxSignals /\ pc # "left"
  /\ signals' = signals + 1 /\ told' = told \cup (known \cap running) /\ running' = running \ known
  /\ UNCHANGED <<todo, pc, known, started, late>>
Next == NextJob \/ StartJob \/ Register \/ Settle \/ Look \/ Signal \/ \E j \in Jobs : Ends(j)
Fairness == WF_vars(NextJob \/ StartJob \/ Register \/ Settle \/ Look) /\ \A j \in Jobs : WF_vars(Ends(j))
Spec == Init /\ [][Next]_vars /\ Fairness
---------------------------------------------------------------------------
TypeOK == /\ known \subseteq Jobs /\ running \subseteq Jobs
          /\ pc \in {"next", "start", "register", "settle", "look", "drain", "left"}
          /\ \A k \in DOMAIN started : started[k] = k                      \* each once, coordinators first
WithinCPU == Cardinality({ j \in running : IsWorker(j) }) <= CPU
OnlyOnRequest == told # {} => Stopping
\* nothing runs on after a request, but what is being started at this moment
Stops == Stopping => running \subseteq (IF pc \in {"register", "settle"} THEN {Head(todo)} ELSE {})
AtMostOneLate == late <= 1
LeavesNothing == pc = "left" => running = {}
Complete == pc = "left" /\ ~Stopping => Len(started) = Coordinators + Workers
Leaves == <>(pc = "left")
NumbersOK == \A old \in SUBSET (0..4), n \in 0..3 :
               /\ Cardinality(WorkerNumbers(old, n)) <= n
               /\ old # {} => WorkerNumbers(old, n) \subseteq old
=============================================================================
