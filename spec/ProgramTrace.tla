---------------------------- MODULE ProgramTrace ----------------------------
(* Recordings of the real program's main(), on a clock of the driver's own. *)
(* At a tick the program is about to look at the time: what it does then is *)
(* seen at the next tick, or after its end.  Norms are in units of 1/64.    *)
EXTENDS TraceLib
P == INSTANCE Program WITH MaxInt <- 0, MaxNow <- 0, MaxBlocks <- 0, ti <- 0, last <- 0, now <- 0, pc <- 0, n <- 0, files <- 0, sig <- 0, delay <- 0, sane <- 0, done <- 0
VARIABLES i, run, st, last, old
\* run: the "run" event; st: the last "ready" or "tick" of the session; last: when things were last done
\* old: what the checkpoint held before the session
vars == <<i, run, st, last, old>>
Ev == Trace[i]
None == [k |-> "none"]
TI == [check |-> run.ti[1], save |-> run.ti[2], listen |-> run.ti[3], reweight |-> run.ti[4]]
Orders(e) == Len(e.phy)
Enough(e, m) == /\ \A j \in DOMAIN e.phy : e.phy[j] >= m
                /\ \A j \in 2..Len(e.sec) : e.sec[j][2] >= m
                /\ \A j \in DOMAIN e.sec : e.sec[j][1] = 1
                /\ e.worm = 1
NotYet == [have |-> FALSE]
\* what the session starts from
BadReady(e) ==
  LET paras == run.load /\ old.p.have
      stats == run.load /\ old.s.have
  IN If(e.cnt = (IF paras THEN old.p.cnt ELSE 0), <<"C32", "starts with another number of hops", e.cnt>>)
     \cup If(e.ver = (IF paras THEN old.p.ver ELSE 0), <<"C32", "starts with another version", e.ver>>)
     \cup If(e.m = (IF stats THEN old.s.m ELSE 2 * Orders(e) * 64), <<"C32", "starts with other statistics", e.m>>)
     \cup If(e.s = old.s, <<"C32", "statistics file changed at the start">>)
     \cup If(run.load => e.p = old.p, <<"C32", "parameter file changed at the start">>)
\* from the start to the first look: messages, thermalisation, one block
BadFirst(e) ==
  LET a == ~st.ins /\ st.msg.have /\ st.msg.ver > st.ver
      f == IF a THEN st.msg.sq ELSE 1
  IN If(e.ver = (IF a THEN st.msg.ver ELSE st.ver), <<"C32", "message at the start", e.ver>>)
     \cup If(e.cnt0 = st.cnt + (run.toss + P!BLOCK) * run.sweep, <<"C32", "hops before the first look", e.cnt0 - st.cnt>>)
     \cup If(e.m0 * f = st.m + P!BLOCK * 64 * f, <<"C32", "measurements before the first look", e.m0>>)
     \cup If(e.fac = st.fac, <<"C32", "reweighted at the start">>)
     \cup If(e.p = st.p /\ e.s = st.s, <<"C32", "checkpoint written at the start">>)
\* what the checkpoint is after the look at st
Saved(e) == LET a == P!Adopts(TI, last, st.now, st.ins, st.ver, st.msg)
                f == IF a THEN st.msg.sq ELSE 1
            IN /\ e.p.have /\ e.s.have /\ e.p.cnt = st.cnt
               /\ \/ e.p.ver = st.ver /\ e.s.m = st.m
                  \/ a /\ e.p.ver = st.msg.ver /\ e.s.m * f = st.m
BadFiles(e) == IF P!Saves(TI, last, st.now, st.ins) THEN If(Saved(e), <<"C32", "no checkpoint of this moment", e.p, e.s>>)
               ELSE If(e.p = st.p /\ e.s = st.s, <<"C32", "a checkpoint that is not due", e.p, e.s>>)
Halted(e) == st.sig > 0 \/ st.cut \/ (st.arm > 0 /\ P!Saves(TI, last, st.now, st.ins)) \/ (st.broken /\ P!Due(TI, last, st.now, "check"))
BadTick(e) ==
  LET a == P!Adopts(TI, last, st.now, st.ins, st.ver, st.msg)
      f == IF a THEN st.msg.sq ELSE 1
      due == P!Due(TI, last, st.now, "reweight")
      lo == Enough(st, 64000 * f)
      hi == Enough(st, 64000)
  IN If(~Halted(e), <<"C32", IF st.sig > 0 THEN "goes on after a signal" ELSE IF st.broken THEN "goes on with a diagram that is inconsistent" ELSE "goes on after a signal within a save">>)
     \cup If(e.cnt0 = st.cnt + P!BLOCK * run.sweep, <<"C32", "hops of a block", e.cnt0 - st.cnt>>)
     \cup If(e.m0 * f = st.m + P!BLOCK * 64 * f, <<"C32", "measurements of a block", e.m0, st.m>>)
     \cup If(e.ver = (IF a THEN st.msg.ver ELSE st.ver), <<"C32", IF a THEN "message not adopted" ELSE "message adopted that is not due", e.ver>>)
     \cup If((due /\ lo) => e.fac # st.fac, <<"C32", "reweighting is due">>)
     \cup If(~(due /\ hi) => e.fac = st.fac, <<"C32", "reweighting is not due">>)
     \cup BadFiles(e)
BadExit(e) ==
  IF run.what = "no" THEN If(st.k = "none", <<"C32", "a run that should be refused">>) \cup If(e.p = old.p /\ e.s = old.s, <<"C32", "a run refused changed the checkpoint">>)
  ELSE IF st.k # "tick" THEN {<<"C32", "ended before its first look", e.rc>>}
  ELSE IF st.sig > 0 THEN If(e.rc = st.sig, <<"C32", "status after a signal", e.rc>>) \cup If(e.p = st.p /\ e.s = st.s, <<"C32", "a checkpoint after a signal">>)
  ELSE IF st.cut THEN {}
  ELSE IF st.broken /\ P!Due(TI, last, st.now, "check") THEN If(e.rc # 0, <<"C32", "ends well with a diagram that is inconsistent">>)
  ELSE IF st.arm > 0 /\ P!Saves(TI, last, st.now, st.ins) THEN If(e.rc = st.arm, <<"C32", "status after a signal within a save", e.rc>>) \cup If(Saved(e), <<"C32", "a signal within a save left the checkpoint incomplete", e.p, e.s>>)
  ELSE {<<"C32", "ended for no reason", e.rc>>}
Bad(e) == CASE e.k = "ready" -> If(run.what = "run", <<"C32", "a run that should be refused">>) \cup BadReady(e)
            [] e.k = "tick" -> IF st.k = "ready" THEN BadFirst(e) ELSE BadTick(e)
            [] e.k = "exit" -> BadExit(e)
            [] e.k = "died" -> {<<"C32", "the driver died", e.rc>>}
            [] OTHER -> {}
Zero == [a \in P!Acts |-> 0]
Init == i = 1 /\ run = None /\ st = None /\ last = Zero /\ old = [p |-> NotYet, s |-> NotYet]
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ run' = IF Ev.k = "run" THEN Ev ELSE run
        /\ st' = IF Ev.k \in {"ready", "tick"} THEN Ev ELSE IF Ev.k \in {"run", "exit"} THEN None ELSE st
        /\ last' = CASE Ev.k = "run" -> Zero
                     [] Ev.k = "ready" -> [a \in P!Acts |-> Ev.now]
                     [] Ev.k = "tick" /\ st.k = "tick" -> P!After(TI, last, st.now)
                     [] OTHER -> last
        /\ old' = IF Ev.k = "exit" THEN [p |-> Ev.p, s |-> Ev.s] ELSE old
        /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
