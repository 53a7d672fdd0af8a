--------------------------- MODULE EstimatorTrace ---------------------------
(* Recordings of the real Estimator and EstimatorBundle (real and complex). *)
EXTENDS TraceLib
VARIABLES i, m, names
\* m: the specification's estimators, in the order the recording shows them
\* names: for a bundle, which name each of them has
vars == <<i, m, names>>
E == INSTANCE Estimator WITH Size <- 10000, MaxCalls <- 0, Samples <- {}, e <- 0, hist <- 0, interval <- 0, counter <- 0, log <- 0
Ev == Trace[i]
All(F(_)) == [j \in DOMAIN m |-> F(m[j])]
\* position of a name in a bundle, 0 when it is not there
At(w) == IF \E j \in DOMAIN names : names[j] = w THEN CHOOSE j \in DOMAIN names : names[j] = w ELSE 0
Step(e) ==
  CASE e.k = "new" -> m' = <<E!Fresh, E!Fresh, E!Fresh>> /\ names' = << >>
    [] e.k \in {"measure", "bmeasure"} -> m' = [m EXCEPT ![e.id] = E!Measure(@, e.a, e.b)] /\ UNCHANGED names
    [] e.k = "snap" -> m' = [m EXCEPT ![e.id] = E!Snap(@, e.m)] /\ UNCHANGED names
    [] e.k = "clear" -> m' = [m EXCEPT ![e.id] = E!Fresh] /\ UNCHANGED names
    [] e.k = "squeeze" -> m' = [m EXCEPT ![e.id] = E!Squeeze(@, e.e)] /\ UNCHANGED names
    [] e.k \in {"import", "copy"} -> m' = [m EXCEPT ![e.to] = m[e.id]] /\ UNCHANGED names
    [] e.k = "bnew" -> m' = << >> /\ names' = << >>
    [] e.k = "badd" -> IF At(e.w) = 0
                       THEN m' = Append(m, IF e.filled THEN E!Measure(E!Fresh, e.a, e.b) ELSE E!Fresh) /\ names' = Append(names, e.w)
                       ELSE UNCHANGED <<m, names>>
    [] e.k = "bsnap" -> LET F(x) == E!Snap(x, 1) IN m' = All(F) /\ UNCHANGED names
    [] e.k = "bclear" -> LET F(x) == E!Fresh IN m' = All(F) /\ UNCHANGED names
    [] e.k = "bsqueeze" -> LET F(x) == E!Squeeze(x, e.e) IN m' = All(F) /\ UNCHANGED names
    [] OTHER -> UNCHANGED <<m, names>>

Abs(x) == IF x < 0 THEN -x ELSE x
\* what an estimator shows (o) against the specification's (x)
MeanOk(mn, x) == /\ Abs(mn[1] * x.n - 1000 * x.a) <= x.n \div 2 + 1
                 /\ Abs(mn[2] * x.n - 1000 * x.b) <= x.n \div 2 + 1
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
\* half the spread of what is left when the first third is thrown away
ErrOk(err, vs) ==
  LET n == Len(vs)
      Sp(k, from) == LET S == { vs[j][k] : j \in from..n } IN Most(S) - Least(S)
      Ok(k) == \E from \in { f \in ((n \div 3) .. (n \div 3 + 2)) : f >= 1 /\ f <= n } : Abs(2 * err[k] - Sp(k, from)) <= 4
  IN Ok(1) /\ Ok(2)
ObsBad(o, x) ==
  If(o.acc = <<x.a, x.b>> /\ o.dacc = <<x.a, x.b>>, <<"C11", "sum", o.acc, o.dacc, x>>)
  \cup If(o.n = x.n /\ o.dn = x.n, <<"C11", "norm", o.n, o.dn, x>>)
  \cup (IF x.n > 200 * 64 THEN {} ELSE
          If(MeanOk(o.mean, x), <<"C11", "mean", o.mean, x>>) \cup If(MeanOk(o.dmean, x), <<"C11", "exported mean", o.dmean, x>>))
  \cup If(o.full => E!Covers(10000, x.c, o.calls), <<"C11", "history", o.len, x>>)
  \cup If(x.c <= 10000 => o.len = x.c, <<"C11", "history length", o.len, x>>)
  \cup If(o.err = o.derr, <<"C11", "exported error", o.err, o.derr>>)
  \cup If(Len(o.values) = o.len => IF o.len = 0 THEN o.err = <<0, 0>> ELSE ErrOk(o.err, o.values), <<"C11", "error", o.err, o.len>>)
StateBad(e) == IF Len(e.st) # Len(m') THEN {<<"C11", "number of estimators", Len(e.st), Len(m')>>}
               ELSE UNION { ObsBad(e.st[j], m'[j]) : j \in DOMAIN m' }
At1(w) == IF \E j \in DOMAIN names' : names'[j] = w THEN CHOOSE j \in DOMAIN names' : names'[j] = w ELSE 0
BundleBad(e) == If(e.many = Len(m'), <<"C11", "how many", e.many>>)
                \cup If(\A w \in DOMAIN e.look : e.look[w] = At1(w), <<"C11", "look-up by name", e.look, names'>>)
Bad(e) ==
  CASE e.k \in {"new", "measure", "snap", "clear", "squeeze", "copy", "read"} -> StateBad(e)
    [] e.k = "import" -> StateBad(e) \cup If(e.ok, <<"C11", "import refused">>)
    [] e.k \in {"bnew", "bmeasure", "bsnap", "bclear", "bsqueeze"} -> StateBad(e) \cup BundleBad(e)
    [] e.k = "badd" -> StateBad(e) \cup BundleBad(e) \cup If(e.ok = (At(e.w) = 0), <<"C11", "adding a name", e.w, e.ok, names>>)
    [] e.k = "bimport" ->
         LET missing == \E j \in DOMAIN e.order : At(e.order[j]) = 0
             should == e.allow \/ ~missing
         IN StateBad(e) \cup BundleBad(e)
            \cup If(e.ok = should /\ (should => e.ret), <<"C11", "import with names missing", e.ok, e.allow, e.order, names>>)
            \cup (IF should /\ e.ok /\ Len(e.other) = Len(e.order)
                  THEN UNION { ObsBad(e.other[j], IF At(e.order[j]) = 0 THEN E!Fresh ELSE m[At(e.order[j])]) : j \in DOMAIN e.order }
                  ELSE {})
    [] e.k = "history" -> If(e.len = Len(e.calls) /\ E!Covers(10000, e.c, e.calls), <<"C11", "history of a long run", e.c, e.len>>)
    [] e.k = "died" -> {<<"C11", "the code crashed">>}
    [] OTHER -> {}
Init == i = 1 /\ m = << >> /\ names = << >>
Next == i <= Len(Trace) /\ Step(Ev) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
