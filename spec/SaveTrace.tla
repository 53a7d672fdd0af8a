------------------------------ MODULE SaveTrace ------------------------------
(***************************************************************************)
(* Recordings of saves of a real worker: every system call that can change *)
(* the directory, what the directory holds after it, and what a restart    *)
(* finds when the process is killed there.  TLC follows the calls in the   *)
(* file system of FileSystem.tla, lets the process die before and after    *)
(* every one and within every write, and asks what the two files hold.     *)
(*   a directory: <<name, number of the file, size, hash>> ...             *)
(***************************************************************************)
EXTENDS TraceLib
F == INSTANCE FileSystem
VARIABLE i
Ev == Trace[i]
Names(d) == { x[1] : x \in Range(d) }
At(d, n) == CHOOSE x \in Range(d) : x[1] = n
Here(d, n) == IF n \in Names(d) THEN <<At(d, n)[3], At(d, n)[4]>> ELSE <<0, "absent">>
\* a directory nothing is known about: every file is one piece
Initial(d) == [dir |-> [n \in Names(d) |-> At(d, n)[2]],
               data |-> [j \in { x[2] : x \in Range(d) } |-> LET x == CHOOSE x \in Range(d) : x[2] = j IN F!Piece(<<"was", j, x[4]>>, x[3])]]
\* what the call number j makes of the directory
After(fs, o, j) ==
  IF ~o.ok THEN fs
  ELSE CASE o.op = "open" -> F!Open(fs, o.a, o.ino, o.creat, o.trunc)
         [] o.op = "write" -> F!Write(fs, o.ino, <<"written", j>>, o.off, o.n)
         [] o.op = "truncate" -> F!Truncate(fs, o.ino, o.n)
         [] o.op = "rename" -> F!Rename(fs, o.a, o.b)
         [] o.op = "link" -> F!Link(fs, o.a, o.b)
         [] o.op = "unlink" -> F!Unlink(fs, o.a)
         [] o.op \in {"close", "sync"} -> fs
         [] OTHER -> Initial(o.dir)
\* the directory before the first call and after every one
RECURSIVE States(_, _, _)
States(fs, ops, j) == IF j > Len(ops) THEN <<fs>> ELSE <<fs>> \o States(After(fs, ops[j], j), ops, j + 1)
Agrees(fs, d) == /\ DOMAIN fs.dir = Names(d)
                 /\ \A n \in Names(d) : fs.dir[n] = At(d, n)[2] /\ F!Size(fs.data[fs.dir[n]]) = At(d, n)[3]
\* what may be left by dying within call o
Within(fs, o, j) ==
  IF o.op = "write" /\ o.ok /\ o.n > 1 THEN { F!Write(fs, o.ino, <<"written", j>>, o.off, k) : k \in {1, o.n \div 2, o.n - 1} } ELSE {}
Restart(what, r, d, before, new, rb, ra, e) ==
  LET p == Here(d, e.pf)
      s == Here(d, e.sf)
      there == s # <<0, "absent">>
  IN If(r.ok, <<"C13", what, "a restart fails", r.s>>)
     \cup (IF ~r.ok \/ ~rb.ok \/ ~ra.ok THEN {}
           ELSE If(r.p \in (IF p = Here(new, e.pf) THEN {ra.p} ELSE {}) \cup (IF p = Here(before, e.pf) THEN {rb.p} ELSE {}),
                   <<"C13", what, "a restart is not what the parameter file holds">>)
                \cup (IF there THEN If(r.s \in (IF s = Here(new, e.sf) THEN {ra.s} ELSE {}) \cup (IF s = Here(before, e.sf) THEN {rb.s} ELSE {}),
                   <<"C13", what, "a restart is not what the statistics file holds">>) ELSE {}))
Complete(what, d, before, new, e) ==
  UNION { If(Here(d, n) \in {Here(before, n), Here(new, n)}, <<"C13", what, n, "neither what it was nor what is saved">>) : n \in {e.pf, e.sf} }
SaveBad(e) ==
  LET ss == States(Initial(e.before), e.ops, 1)
      last == ss[Len(ss)]
      new == IF Len(e.ops) = 0 THEN e.before ELSE e.ops[Len(e.ops)].dir
      Bads(fs, what, j) == UNION { If(F!Holds(fs, n) \in {F!Holds(ss[1], n), F!Holds(last, n)}, <<"C13", what, j, n, "neither what it was nor what is saved">>) : n \in {e.pf, e.sf} }
  IN If(e.done, <<"C13", "a save fails">>)
     \cup If(e.rb.ok, <<"C13", "a restart before the save fails", e.rb.s>>)
     \cup If(e.ra.ok, <<"C13", "a restart after the save fails", e.ra.s>>)
     \cup If(e.due /\ e.ra.ok => e.ra.p = e.live.p, <<"C13", "the parameter file saved is not what the worker was">>)
     \cup If(e.due /\ e.exact /\ e.ra.ok => e.ra.s = e.live.s, <<"C13", "the statistics file saved is not what the worker was">>)
     \cup If(e.due => {e.pf, e.sf} \subseteq Names(new), <<"C13", "a save leaves a file out">>)
     \cup UNION { If(Agrees(ss[j + 1], e.ops[j].dir), <<"C13", "the directory after call", j, e.ops[j].op, "is not what the call makes of it">>) : j \in 1..Len(e.ops) }
     \cup UNION { Bads(ss[j], "killed after call", j - 1) : j \in 1..Len(ss) }
     \cup UNION { UNION { Bads(fs, "killed within call", j) : fs \in Within(ss[j], e.ops[j], j) } : j \in 1..Len(e.ops) }
     \cup UNION { LET k == e.kills[j] IN Complete(<<"killed", k.how, k.at>>, k.dir, e.before, new, e)
                                         \cup Restart(<<"killed", k.how, k.at>>, k.r, k.dir, e.before, new, e.rb, e.ra, e) : j \in 1..Len(e.kills) }
\* one call failed: either the save says so or both files are saved
FaultBad(e) ==
  Complete(<<"call fails", e.op, e.a>>, e.dir, e.before, e.new, e)
  \cup Restart(<<"call fails", e.op, e.a>>, e.r, e.dir, e.before, e.new, e.rb, e.ra, e)
  \cup If(e.done => \A n \in {e.pf, e.sf} : Here(e.dir, n) = Here(e.new, n), <<"C13", "a save comes back without having saved", e.op, e.a>>)
Bad(e) ==
  CASE e.k = "save" -> SaveBad(e)
    [] e.k = "fault" -> FaultBad(e)
    [] e.k = "fail" -> {<<"C13", e.op, e.msg>>}
    [] e.k = "died" -> {<<"C13", "died", e.rc>>}
    [] OTHER -> {}
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_i
=============================================================================
