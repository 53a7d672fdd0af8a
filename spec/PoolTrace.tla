----------------------------- MODULE PoolTrace ------------------------------
(* Recordings of the real diag::Bundle against Pool.tla. *)
EXTENDS TraceLib
CapN == 20
VARIABLES i, live, holds, run
P == INSTANCE Pool WITH Cap <- CapN, Comps <- {}
vars == <<i, live, holds, run>>
Ev == Trace[i]

\* what can be seen of the pool after every operation
Look(e, S, H) ==
  If(e.n = Cardinality(S), <<"C07", "count", e.k, e.n>>)
  \cup If(Range(e.live) = S /\ Len(e.live) = Cardinality(S), <<"C07", "live components", e.k>>)
  \cup If(\A j \in DOMAIN e.names : e.names[j] = j - 1, <<"C07", "names", e.k, e.names>>)
  \cup If(Range(e.exist) = S /\ ~e.foreign /\ ~e.null, <<"C07", "Exist", e.k>>)
  \cup If(e.same, <<"C07", "the two look-ups differ", e.k>>)
  \cup If(\A j \in DOMAIN e.live : e.live[j] \in DOMAIN H => e.marks[j] = H[e.live[j]], <<"C07", "contents", e.k>>)
Set(H, c, m) == [x \in (DOMAIN H) \cup {c} |-> IF x = c THEN m ELSE H[x]]

NewLive(e) == CASE e.k = "new" -> {}
               [] e.k = "add" /\ ~e.threw -> live \cup {e.id}
               [] e.k = "remove" /\ ~e.threw -> live \ {e.id}
               [] e.k = "recover" -> P!Undone(run, IF e.step < 0 THEN -e.step ELSE e.step)
               [] OTHER -> live
NewHolds(e) == CASE e.k = "new" -> <<>>
                [] e.k = "add" /\ ~e.threw -> Set(holds, e.id, e.mark)
                [] OTHER -> holds
NewRun(e) == CASE e.k = "add" /\ ~e.threw -> P!Cont(run, "add", live)
              [] e.k = "remove" /\ ~e.threw -> P!Cont(run, "remove", live)
              [] e.k \in {"add", "remove", "recover", "new"} -> P!NoRun
              [] OTHER -> run
Bad(e) ==
  CASE e.k = "end" -> {}
    [] e.k = "died" -> {<<"C07", "the code crashed">>}
    [] OTHER ->
      Look(e, NewLive(e), NewHolds(e))
      \cup (CASE e.k = "add" -> If(e.threw = (Cardinality(live) = CapN), <<"C07", "refuses exactly when full">>)
                                \cup If(e.threw \/ P!CanAdd(live, e.id), <<"C07", "a component in use was handed out">>)
              [] e.k = "remove" -> If(e.threw = (live = {}), <<"C07", "remove">>)
              [] e.k = "pick" -> If(e.id \in live, <<"C07", "picked a component that is not live">>)
              [] e.k = "illegal" -> If(e.threw, <<"C07", "an illegal access was not refused", e.what>>)
              [] OTHER -> {})
Init == i = 1 /\ live = {} /\ holds = <<>> /\ run = P!NoRun
Next == /\ i <= Len(Trace)
        /\ ReportAt(i, Bad(Ev))
        /\ i' = i + 1
        /\ IF Ev.k \in {"end", "died"} THEN UNCHANGED <<live, holds, run>>
           ELSE live' = NewLive(Ev) /\ holds' = NewHolds(Ev) /\ run' = NewRun(Ev)
Spec == Init /\ [][Next]_vars
=============================================================================
