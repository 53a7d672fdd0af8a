----------------------------- MODULE WorkerTrace -----------------------------
(***************************************************************************)
(* Recordings of a whole real worker (EnvMonteCarlo): steps, measurements, *)
(* checkpoints, restarts in a new process, messages and reweighting.  The  *)
(* state is what the specification says the worker is (w), what its two    *)
(* files hold (para, stat) and what is published (msg, wf).  An            *)
(* observation of the worker is a record:                                  *)
(*   p   what the parameter file is for: ver, lb (log2 of the inverse      *)
(*       temperature), cnt, rng, the reweighting factors (as powers of     *)
(*       two), ratio, rest, st (the diagram, as in Diagram.tla)            *)
(*   s   what the statistics file is for: c counters <<sum, norm>> and     *)
(*       t tables [a, n, norm], in units of 1/4096                         *)
(*   wt  the weights in use;  ph  the phase of the diagram                 *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, w, para, stat, msg, wf, first, taken
vars == <<i, w, para, stat, msg, wf, first, taken>>
CfgRec == JsonDeserialize(IOEnv.CFG)
Dg == INSTANCE Diagram WITH Cfg <- CfgRec
T == INSTANCE Table WITH P <- 0, Ks <- {}, Bins <- {}, Ws <- {}, Cap <- 0, t <- 0, log <- 0
R == INSTANCE Worker WITH MaxVer <- 0, MaxN <- 0, live <- 0, para <- 0, stat <- 0, msg <- 0, wts <- 0, saving <- 0, history <- 0
U == 4096
Absent == [none |-> TRUE]
Ev == Trace[i]
C == CfgRec
O == C.maxord
Tabs == IF C.g3 THEN {"sigma", "polar", "gammag", "gammaw"} ELSE {"sigma", "polar"}
Power(k) == IF k \in {"sigma", "polar"} THEN 2 ELSE 3
Times2(v, e) == T!Times2(v, e)
---------------------------------------------------------------------------
(* A table, as observed and as the specification keeps it                   *)
Bag(t) == { <<r[1], r[2], r[3]>> : r \in Range(t.a) }
AddTo(t, b, z) ==
  LET old == { r \in Range(t.a) : r[1] = b }
      v == IF old = {} THEN <<0, 0>> ELSE LET r == CHOOSE r \in old : TRUE IN <<r[2], r[3]>>
      n == <<b, v[1] + z[1], v[2] + z[2]>>
      rest == Bag(t) \ { <<r[1], r[2], r[3]>> : r \in old }
  IN [bag |-> IF n[2] = 0 /\ n[3] = 0 THEN rest ELSE rest \cup {n}, n |-> t.n, norm |-> t.norm]
Tb(t) == [bag |-> Bag(t), n |-> t.n, norm |-> t.norm]
Scale(t, e) == [bag |-> { <<r[1], Times2(r[2], -e), Times2(r[3], -e)>> : r \in t.bag }, n |-> Times2(t.n, -e), norm |-> t.norm]
---------------------------------------------------------------------------
(* a worker that has just been set up from the input file                   *)
NormConst(k) ==
  LET nf == C.Lx * C.Ly * C.nsub IN
  16 * nf * (CASE k \in {"sigma", "polar"} -> C.nt [] k = "gammag" -> C.nt * C.nt [] k = "gammaw" -> C.ntt * C.ntt)
FreshStat ==
  [c |-> [worm |-> [j \in 1..(O + 1) |-> <<0, U>>], phy |-> [j \in 1..(O + 1) |-> <<0, U>>], sec |-> [j \in 1..4 |-> <<0, U>>]],
   t |-> [k \in Tabs |-> [bag |-> {}, n |-> 0, norm |-> NormConst(k)]]]
Stat(s) == [c |-> s.c, t |-> [k \in Tabs |-> Tb(s.t[k])]]
StatBad(p, what, x, y) ==
  If(x.c.worm = y.c.worm, <<p, what, "worm counters", x.c.worm, y.c.worm>>)
  \cup If(x.c.phy = y.c.phy, <<p, what, "order counters", x.c.phy, y.c.phy>>)
  \cup If(x.c.sec = y.c.sec, <<p, what, "sector counters", x.c.sec, y.c.sec>>)
  \cup UNION { If(x.t[k] = y.t[k], <<p, what, k, x.t[k].n, y.t[k].n, x.t[k].norm, y.t[k].norm, x.t[k].bag \ y.t[k].bag, y.t[k].bag \ x.t[k].bag>>) : k \in Tabs }
\* x observed, y expected; fs: the fields that matter
ParaBad(p, what, x, y, fs) == UNION { If(x[f] = y[f], <<p, what, f, x[f], y[f]>>) : f \in fs }
Factors == {"orw", "wsr", "pr", "ggr", "gwr"}
AllP == {"ver", "lb", "cnt", "rng", "ratio", "rest", "st"} \cup Factors
NewBad(e) ==
  LET o == e.o IN
  If(o.p.rng = e.seedrng, <<"C12", "new", "random stream">>)
  \cup If(o.p.ver = 0 /\ o.p.cnt = 0 /\ o.p.lb = C.lb, <<"C12", "new", "version, counter or temperature", o.p.ver, o.p.cnt, o.p.lb>>)
  \cup If(o.p.orw = C.orw /\ o.p.wsr = C.wsr /\ o.p.pr = C.pr /\ (C.g3 => o.p.ggr = C.ggr /\ o.p.gwr = C.gwr) /\ o.p.ratio = C.ratio, <<"C12", "new", "factors">>)
  \cup StatBad("C12", "new", Stat(o.s), FreshStat)
---------------------------------------------------------------------------
(* one measurement: what it adds                                            *)
St == w.p.st
Phys == ~St.worm.e
MeasG == St.meas \in DOMAIN St.g
Ins == C.g3 /\ St.ins # 0
Sector == IF MeasG THEN (IF Ins THEN 3 ELSE 1) ELSE (IF Ins THEN 4 ELSE 2)
Bump(q, j) == [q EXCEPT ![j] = <<@[1] + U, @[2] + U>>]
\* which of the counters go up by one
CountersAfter ==
  LET c == w.s.c IN
  IF ~Phys
  THEN [c EXCEPT !.worm = Bump(@, St.ord + 1), !.sec = IF St.ins = 0 THEN Bump(@, IF MeasG THEN 1 ELSE 2) ELSE @]
  ELSE [c EXCEPT !.phy = Bump(@, St.ord + 1), !.sec = IF St.ord > 0 THEN Bump(@, Sector) ELSE @]
\* i^q * 2^e in units of 1/4096
Num(q, e) ==
  LET m == Times2(U, e) IN
  CASE q = 0 -> <<m, 0>> [] q = 1 -> <<0, m>> [] q = 2 -> <<-m, 0>> [] q = 3 -> <<0, -m>>
NegZ(z) == <<-z[1], -z[2]>>
ConjZ(z) == <<z[1], -z[2]>>
HalfZ(z, n) == <<z[1] \div n, z[2] \div n>>
Plain == Num(w.ph[2], -w.p.orw[St.ord + 1])
SigmaSample ==
  LET a == St.v[St.g[St.meas].o] \* from the line's end ...
      b == St.v[St.g[St.meas].i] \* ... to its start
      sp == b.so
      size == 4 * C.nsub * C.nsub * Dg!Vol * C.nt
  IN [t |-> "sigma", b |-> (St.ord - 1) * size + Dg!GIdx(sp, a.r, sp, b.r, a.t, b.t),
      z |-> IF Dg!TLess(a.t, b.t) THEN Plain ELSE NegZ(Plain)]
PolarSample ==
  LET a == St.v[St.w[St.meas].o]
      b == St.v[St.w[St.meas].i]
      size == 16 * C.nsub * C.nsub * Dg!Vol * C.nt
  IN [t |-> "polar", b |-> (St.ord - 1) * size + Dg!WIdx0(<<a.si, a.so>>, a.r, <<b.si, b.so>>, b.r) * C.nt + Dg!TauBin(a.t, b.t, C.nt), z |-> NegZ(Plain)]
GammaGSample ==
  LET a == St.v[St.g[St.meas].o]
      b == St.v[St.g[St.meas].i]
      u == St.u
      n == C.nt
      z0 == Num(w.ph[2], -w.p.orw[St.ord + 1] - w.p.ggr)
      z1 == IF Dg!TLess(b.t, u.t) THEN NegZ(z0) ELSE z0
  IN [t |-> "gammag", b |-> ((b.so * Dg!Vol + Dg!Coord(a.r, u.r)) * n + Dg!TauBin(u.t, b.t, n)) * n + Dg!TauBin(u.t, a.t, n),
      z |-> IF Dg!TLess(a.t, u.t) THEN NegZ(z1) ELSE z1]
GammaWSample ==
  LET a == St.v[St.w[St.meas].i]
      b == St.v[St.w[St.meas].o]
      u == St.u
      n == C.ntt
      tx == Dg!TauBin(u.t, b.t, n) * n + Dg!TauBin(u.t, a.t, n) + 1
      cx == (IF C.TFlag[tx] # 0 THEN Dg!Coord(a.r, u.r) * Dg!Vol + Dg!Coord(b.r, u.r) ELSE Dg!Coord(b.r, u.r) * Dg!Vol + Dg!Coord(a.r, u.r)) + 1
      sp == Dg!WSpin(<<b.si, b.so>>, <<a.si, a.so>>)
      z0 == HalfZ(Num(w.ph[2], -w.p.orw[St.ord + 1] - w.p.gwr), C.RSym[cx] * C.TSym[tx])
      z1 == IF C.TFlag[tx] # 0 THEN NegZ(ConjZ(z0)) ELSE z0
  IN [t |-> "gammaw", b |-> C.RSq[cx] * C.TauSize + C.TSq[tx] + (IF sp >= 4 THEN C.RSize * C.TauSize ELSE 0),
      z |-> CASE sp \in {0, 1} -> z1 [] sp \in {2, 3} -> NegZ(z1) [] sp = 4 -> HalfZ(z1, 2) [] sp = 5 -> NegZ(ConjZ(HalfZ(z1, 2))) [] OTHER -> z1]
TheSample == CASE Sector = 1 -> SigmaSample [] Sector = 2 -> PolarSample [] Sector = 3 -> GammaGSample [] Sector = 4 -> GammaWSample
NormsUp == IF MeasG THEN {"sigma", "gammag"} ELSE {"polar", "gammaw"}
TablesAfter ==
  IF ~Phys THEN [k \in Tabs |-> Tb(w.s.t[k])]
  ELSE IF St.ord = 0
       THEN [k \in Tabs |-> [Tb(w.s.t[k]) EXCEPT !.n = @ + (IF k \in NormsUp THEN Times2(U, -w.p.orw[1]) ELSE 0)]]
       ELSE LET x == TheSample IN [k \in Tabs |-> IF k = x.t THEN AddTo(w.s.t[k], x.b, x.z) ELSE Tb(w.s.t[k])]
\* factors that are no powers of two (reported when they came up) are not followed further
Known(p) == /\ \A j \in DOMAIN p.orw : p.orw[j] < 9000
            /\ p.wsr < 9000 /\ p.pr < 9000 /\ p.ggr < 9000 /\ p.gwr < 9000
MeasureBad(e) ==
  IF ~Known(w.p) THEN {} ELSE
  LET y == [c |-> CountersAfter, t |-> TablesAfter] IN
  StatBad("C09", IF Phys THEN "measurement" ELSE "measurement with a worm", Stat(e.o.s), y)
  \cup ParaBad("C09", "measurement", e.o.p, w.p, AllP)
  \cup If(e.o.wt = w.wt /\ e.o.ph = w.ph, <<"C09", "a measurement changed weights or phase">>)
---------------------------------------------------------------------------
(* reweighting                                                              *)
Thousand == 1000 * U
RECURSIVE SumFrom(_, _)
SumFrom(q, j) == IF j > Len(q) THEN 0 ELSE q[j][1] + SumFrom(q, j + 1)
Enough(c) ==
  /\ \A j \in DOMAIN c.phy : c.phy[j][2] >= Thousand
  /\ c.sec[2][2] >= Thousand /\ c.sec[1][1] # 0 /\ c.sec[2][1] # 0
  /\ C.g3 => c.sec[3][2] >= Thousand /\ c.sec[4][2] >= Thousand /\ c.sec[3][1] # 0 /\ c.sec[4][1] # 0
  /\ SumFrom(c.worm, 2) # 0
\* totals that stand in the ratio of a power of two
IsPow2(v) == \E k \in 0..30 : v = 2 ^ k
Log2(v) == CHOOSE k \in 0..30 : v = 2 ^ k
Ratio2(a, b) == IF a >= b THEN a % b = 0 /\ IsPow2(a \div b) ELSE b % a = 0 /\ IsPow2(b \div a)
LgR(a, b) == IF a >= b THEN Log2(a \div b) ELSE -Log2(b \div a)
Adjusted(p, c) ==
  LET tot(j) == c.phy[j][1] + c.worm[j][1]
      g(x, a, b) == IF x > 9000 \/ ~Ratio2(a, b) THEN 9999 ELSE x + LgR(a, b)
  IN [orw |-> [j \in DOMAIN p.orw |-> IF j = 1 THEN 0 ELSE g(p.orw[j] + p.ratio[j], tot(1), tot(j))],
      wsr |-> g(p.wsr, SumFrom(c.phy, 2), SumFrom(c.worm, 2)), pr |-> g(p.pr, c.sec[1][1], c.sec[2][1]),
      ggr |-> IF C.g3 THEN g(p.ggr, c.sec[1][1], c.sec[3][1]) ELSE p.ggr,
      gwr |-> IF C.g3 THEN g(p.gwr, c.sec[2][1], c.sec[4][1]) ELSE p.gwr]
AdjustBad(e) ==
  IF ~Known(w.p) THEN {} ELSE
  LET p == w.p
      c == w.s.c
      enough == Enough(c)
      what == IF enough THEN "enough samples" ELSE "not enough samples"
      a == IF enough THEN Adjusted(p, c) ELSE [orw |-> p.orw, wsr |-> p.wsr, pr |-> p.pr, ggr |-> p.ggr, gwr |-> p.gwr]
  IN ParaBad("C16", what, e.o.p, a, Factors)
     \cup ParaBad("C16", "reweighting changed something else", e.o.p, p, AllP \ Factors)
     \cup StatBad("C16", "reweighting changed the statistics", Stat(e.o.s), Stat(w.s))
     \cup If(e.o.wt = w.wt, <<"C16", "reweighting changed the weights">>)
\* factors in units of 1/8192 against the formula, for any numbers of samples
Approx(f, x, a, b) == \* f is 8192 * 2^x * a / b
  IF x > 6 \/ x < -9 \/ a > 200000 \div (2 ^ (IF x > 0 THEN x ELSE 0)) THEN f > 0
  ELSE LET q == IF x >= 0 THEN (8192 * (2 ^ x) * a) \div b ELSE (8192 * a) \div (b * (2 ^ (-x)))
           d == f - q
       IN f > 0 /\ (IF d < 0 THEN -d ELSE d) <= 2
RECURSIVE Sum(_, _)
Sum(q, j) == IF j > Len(q) THEN 0 ELSE q[j] + Sum(q, j + 1)
AdjustXBad(e) ==
  IF ~Known(w.p) THEN {} ELSE
  LET p == w.p
      \* every norm starts at one
      enough == /\ \A j \in DOMAIN e.phy : e.phy[j] + 1 >= 1000
                /\ e.sec[2] + 1 >= 1000 /\ e.sec[1] # 0 /\ e.sec[2] # 0
                /\ C.g3 => e.sec[3] + 1 >= 1000 /\ e.sec[4] + 1 >= 1000 /\ e.sec[3] # 0 /\ e.sec[4] # 0
                /\ Sum(e.worm, 2) # 0
      N == O + 1
      old == [j \in 1..(N + 4) |-> IF j <= N THEN p.orw[j] ELSE <<p.wsr, p.pr, p.ggr, p.gwr>>[j - N]]
      tot(j) == e.phy[j] + e.worm[j]
      name(j) == IF j <= N THEN <<"order", j - 1>> ELSE <<"sector", j - N>>
      ok(j) ==
        IF ~enough THEN old[j] > 6 \/ Approx(e.f[j], old[j], 1, 1)
        ELSE CASE j = 1 -> e.f[1] = 8192
               [] j > 1 /\ j <= N -> Approx(e.f[j], old[j] + p.ratio[j], tot(1), tot(j))
               [] j = N + 1 -> Approx(e.f[j], old[j], Sum(e.phy, 2), Sum(e.worm, 2))
               [] j = N + 2 -> Approx(e.f[j], old[j], e.sec[1], e.sec[2])
               [] j = N + 3 -> IF C.g3 THEN Approx(e.f[j], old[j], e.sec[1], e.sec[3]) ELSE Approx(e.f[j], old[j], 1, 1)
               [] j = N + 4 -> IF C.g3 THEN Approx(e.f[j], old[j], e.sec[2], e.sec[4]) ELSE Approx(e.f[j], old[j], 1, 1)
  IN IF Len(e.f) # N + 4 THEN {<<"C16", "reweighting failed", e.f>>}
     ELSE UNION { If(ok(j), <<"C16", IF enough THEN "factor" ELSE "factor without enough samples", name(j), e.f[j], old[j], e.phy, e.worm, e.sec>>) : j \in 1..(N + 4) }
---------------------------------------------------------------------------
(* a message                                                                *)
Takes == R!Adopts(w.p.ver, C.g3 /\ w.p.st.ins # 0, msg.ver, wf # "bad")
\* a time in units of the period, when the period is 2^k times as long
Longer(t, k) == LET x == t[1] % (2 ^ k) IN <<t[1] \div (2 ^ k), (t[2] + x * 524288) \div (2 ^ k)>>
Warp(st, k) == IF k <= 0 THEN st ELSE [st EXCEPT !.v = [x \in DOMAIN @ |-> [@[x] EXCEPT !.t = Longer(@, k)]]]
ListenBad(e) ==
  IF ~Takes
  THEN If(~e.ret, <<"C14", "adopted", msg.ver, w.p.ver, wf>>)
       \cup ParaBad("C14", "not adopted, but changed", e.o.p, w.p, AllP)
       \cup StatBad("C14", "not adopted, but changed", Stat(e.o.s), Stat(w.s))
       \cup If(e.o.wt = w.wt /\ e.o.ph = w.ph, <<"C14", "not adopted, but changed", "weights">>)
  ELSE LET d == msg.lb - w.p.lb
           pp == [w.p EXCEPT !.ver = msg.ver, !.lb = msg.lb, !.st = Warp(@, d)]
           q == msg.sq
           h(x) == <<Times2(x[1], -q), Times2(x[2], -q)>>
           cc == [worm |-> [j \in DOMAIN w.s.c.worm |-> h(w.s.c.worm[j])], phy |-> [j \in DOMAIN w.s.c.phy |-> h(w.s.c.phy[j])],
                  sec |-> [j \in 1..4 |-> IF j <= 2 \/ C.g3 THEN h(w.s.c.sec[j]) ELSE w.s.c.sec[j]]]
           tt == [k \in Tabs |-> Scale([Tb(w.s.t[k]) EXCEPT !.n = Times2(@, -d * Power(k))], q)]
       IN If(e.ret, <<"C14", "not adopted", msg.ver, w.p.ver>>)
          \cup ParaBad("C14", "adopted", e.o.p, pp, AllP)
          \cup StatBad("C14", "adopted", Stat(e.o.s), [c |-> cc, t |-> tt])
          \cup If(e.o.wt = wf, <<"C14", "adopted", "weights">>)
---------------------------------------------------------------------------
(* checkpoints                                                              *)
RestartBad(e) ==
  LET pp == IF e.para /\ para # Absent THEN para ELSE first
      ss == IF e.statis /\ stat # Absent THEN stat ELSE FreshStat
  IN ParaBad("C12", "restart", e.o.p, pp, AllP)
     \cup StatBad("C12", "restart", Stat(e.o.s), ss)
     \cup If(e.o.wt = wf, <<"C12", "restart", "weights">>)
ResumeBad(e) ==
  IF e.same THEN {}
  ELSE IF "p" \in DOMAIN e.a /\ "p" \in DOMAIN e.b
       THEN ParaBad("C12", "resumed run differs", e.b.p, e.a.p, AllP) \cup StatBad("C12", "resumed run differs", Stat(e.b.s), Stat(e.a.s))
            \cup {<<"C12", "resumed run differs">>}
       ELSE {<<"C12", "resumed run differs", e.a, e.b>>}
SaveBad(e) ==
  If(w.p.st.ins = 0 \/ ~e.wrote, <<"C12", "saved a diagram with an insertion">>)
  \cup ParaBad("C12", "saving changed", e.o.p, w.p, AllP)
  \cup StatBad("C12", "saving changed", Stat(e.o.s), Stat(w.s))
HopBad(e) ==
  UNION { If(e.o.p[f] = w.p[f], <<"C12", "a step changed", f>>) : f \in AllP \ {"cnt", "rng", "st"} }
  \cup If(e.o.p.cnt = w.p.cnt + e.n, <<"C12", "step counter", e.o.p.cnt, w.p.cnt, e.n>>)
  \cup StatBad("C09", "a step counted", Stat(e.o.s), Stat(w.s))
FailBad(e) ==
  CASE e.op = "Measure" -> {<<"C09", "failure", e.op, e.msg>>}
    [] e.op \in {"Save", "Load"} -> {<<"C12", "failure", e.op, e.msg>>}
    [] e.op = "ListenToMessage" -> {<<"C14", "failure", e.op, e.msg>>}
    [] e.op = "AdjustOrderReWeight" -> {<<"C16", "failure", e.op, e.msg>>}
    [] OTHER -> {<<p, "failure", e.op, e.msg>> : p \in taken}
Bad(e) ==
  CASE e.k = "new" -> NewBad(e)
    [] e.k = "hop" -> HopBad(e)
    [] e.k = "measure" -> MeasureBad(e)
    [] e.k = "save" -> SaveBad(e)
    [] e.k = "restart" -> RestartBad(e)
    [] e.k = "resume" -> ResumeBad(e)
    [] e.k = "listen" -> ListenBad(e)
    [] e.k = "adjust" -> AdjustBad(e)
    [] e.k = "adjustx" -> AdjustXBad(e)
    [] e.k = "fail" -> FailBad(e)
    [] e.k = "died" -> {<<p, "the code crashed">> : p \in {"C09", "C12", "C14", "C16"}}
    [] OTHER -> {}
---------------------------------------------------------------------------
Step(e) ==
  /\ w' = IF e.k \in {"new", "hop", "measure", "save", "restart", "listen", "adjust", "preset"} THEN e.o ELSE w
  /\ first' = IF e.k = "new" THEN e.o.p ELSE first
  /\ wf' = IF e.k = "new" THEN e.o.wt ELSE IF e.k = "weights" THEN e.wt ELSE wf
  /\ msg' = IF e.k = "message" THEN [ver |-> e.ver, lb |-> e.lb, sq |-> e.sq] ELSE msg
  /\ para' = CASE e.k = "new" -> e.o.p
               [] e.k = "save" /\ R!Saves(w.p.st.ins # 0) -> w.p
               [] e.k = "restart" /\ ~e.para -> Absent
               [] OTHER -> para
  /\ stat' = CASE e.k = "save" /\ R!Saves(w.p.st.ins # 0) -> Stat(w.s)
               [] e.k = "restart" /\ ~e.statis -> Absent
               [] OTHER -> stat
  \* what a step that fails may be the fault of
  /\ taken' = CASE e.k = "restart" -> taken \cup {"C12"} [] e.k = "listen" /\ e.ret -> taken \cup {"C14"} [] OTHER -> taken
Init == i = 1 /\ w = << >> /\ para = Absent /\ stat = Absent /\ msg = [ver |-> -1, lb |-> 0, sq |-> 0] /\ wf = "bad" /\ first = << >> /\ taken = {}
Next == i <= Len(Trace) /\ Step(Ev) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
