--------------------------- MODULE InterruptTrace ---------------------------
(* What the real InterruptHandler did with sequences of operations. *)
EXTENDS TraceLib
VARIABLE i
T == INSTANCE Interrupt WITH MaxLen <- 0, s <- 0, h <- 0
Ev == Trace[i]
RECURSIVE After(_, _)
After(ops, n) == IF n = 0 THEN T!Start ELSE T!Step(After(ops, n - 1), ops[n])
Bad(e) ==
  CASE e.k = "run" ->
         LET N == Len(e.ops)
             \* how many operations it survives
             alive == { n \in 0..N : After(e.ops, n).dead = {} }
             last == Cardinality(alive) - 1
             end == After(e.ops, N)
         IN If(Len(e.said) <= last + 1, <<"C15", "a termination request did not take effect", e.ops, e.said>>)
            \cup If(Len(e.said) >= last + 1, <<"C15", "stopped too early", e.ops, e.said, e.status>>)
            \cup If(\A n \in 1..Len(e.said) : n <= last + 1 => e.said[n] = T!Says(After(e.ops, n - 1)), <<"C15", "wrong about delaying", e.ops, e.said>>)
            \cup If(IF end.dead = {} THEN e.status = 0
                    ELSE \E g \in end.dead : e.status \in {g, 128 + g, 1000 + g}, <<"C15", "how the process ended", e.ops, e.status>>)
    [] e.k = "died" -> {<<"C15", "the code crashed">>}
    [] OTHER -> {}
Init == i = 1
Next == i <= Len(Trace) /\ ReportAt(i, Bad(Ev)) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
