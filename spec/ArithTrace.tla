----------------------------- MODULE ArithTrace -----------------------------
EXTENDS TraceLib
VARIABLE i
MK == 10000
A == INSTANCE Arith WITH MaxK <- MK, Small <- 1, z <- 0
Ev == Trace[i]
MomOK(e) ==
  CASE e.op = "mk" -> e.r = A!Rep(e.a)
    [] e.op = "add" -> e.r = A!Rep(e.a + e.b)
    [] e.op = "sub" -> e.r = A!Rep(e.a - e.b)
    [] e.op = "mul" -> e.r = A!Rep(e.a * e.b)
    [] e.op = "eq" -> e.r = IF e.a = e.b THEN 7 ELSE 56
    [] e.op = "index" -> e.r = e.a + MK
    [] e.op = "abs" -> e.r = A!Abs(e.a)
CplOK(e) ==
  CASE e.op = "val" -> A!Is(e.r, e.a)
    [] e.op = "add" -> A!Is(e.r, A!CAdd(e.a, e.b))
    [] e.op = "sub" -> A!Is(e.r, A!CSub(e.a, e.b))
    [] e.op = "mul" -> A!Is(e.r, A!CMul(e.a, e.b))
    [] e.op = "neg" -> A!Is(e.r, A!CSub(<<0, 0>>, e.a))
    [] e.op = "conj" -> A!Is(e.r, A!Conj(e.a))
    [] e.op = "mod2" -> A!Is(e.r, <<A!Mod2(e.a), 0>>)
    [] e.op = "mod" -> e.r[2] = 0 /\ A!Root(e.r[1], A!Mod2(e.a))
    \* the square root of (b)^2 is b or -b, the one with non-negative real part
    [] e.op = "sqrt" -> (A!Is(e.r, e.b) \/ A!Is(e.r, A!CSub(<<0, 0>>, e.b))) /\ e.r[1] >= 0
    [] e.op = "div" -> A!Quot(e.r, e.a, e.b)
    [] e.op = "pow" -> IF e.a = <<0, 0>> THEN A!Is(e.r, IF e.b[1] = 0 THEN <<1, 0>> ELSE <<0, 0>>)
                       ELSE A!Is(e.r, A!CPow(e.a, e.b[1]))
Bad(e) ==
  CASE e.k = "mom" -> If(MomOK(e), <<"C22", "momentum " \o e.op, e.a, e.b, e.r>>) \cup If(MomOK(e), <<"C02", "momentum " \o e.op, e.a, e.b, e.r>>)
    [] e.k = "cpl" -> If(CplOK(e), <<"C22", "complex " \o e.op, e.a, e.b, e.r>>)
    [] e.k = "arg" -> If(e.q = A!Eighth(e.re, e.im) /\ e.whole = A!Whole(e.re, e.im), <<"C22", "complex arg", e.re, e.im>>)
    [] e.k = "zero" -> If(e.z = (e.re = 0 /\ e.im = 0) /\ e.e = (e.re = e.br /\ e.im = e.bi) /\ e.e2 = e.e, <<"C22", "complex comparison", e.re, e.im>>)
    [] e.k = "died" -> {<<"C22", "the code crashed">>, <<"C02", "the code crashed">>}
    [] OTHER -> {}
Init == i = 1
Next == i <= Len(Trace) /\ ReportAt(i, Bad(Ev)) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
