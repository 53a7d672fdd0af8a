----------------------------- MODULE ObserveTrace -----------------------------
(* Recordings of Fourier transforms and measurements of the coordinator.      *)
EXTENDS TraceLib
VARIABLES i, c, h
\* c: the system measured; h: what has been measured of it, in thousandths
vars == <<i, c, h>>
F == INSTANCE Fourier WITH MaxL <- 1, MaxNt <- 1, c <- 0
G == INSTANCE Lattice WITH Sizes <- {}, c <- 0
Ev == Trace[i]
P == "C28"
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
\* F(0) + ... + F(n - 1), pairs
SumTo(f(_), n) == IF n = 0 THEN <<0, 0>> ELSE F!Add(SumTo(f, n - 1), f(n - 1))
RECURSIVE Sum1(_, _)
Sum1(f(_), n) == IF n = 0 THEN 0 ELSE Sum1(f, n - 1) + f(n - 1)
Close(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
\* from units of 10^-5 to thousandths
Milli(w) == <<w[1] \div 100, w[2] \div 100>>
---------------------------------------------------------------------------
(* Weight.FFT: from cells and times to momenta and frequencies *)
FftBad(e) ==
  LET V == F!VolOf(e.L)
      N == IF e.smooth = 1 THEN e.nt ELSE 1
      anti == e.anti = 1
      K == e.space = "K"
      W == e.time = "W" /\ e.smooth = 1
      At(b, r, t) == e.before[(b * V + r) * N + t + 1]
      OneTime(b, r, x) == IF W THEN SumTo(LAMBDA t : F!Turn(At(b, r, t), F!Time(N, anti, x, t)), N) ELSE <<100000 * At(b, r, x)[1], 100000 * At(b, r, x)[2]>>
      Both(b, k, x) ==
        IF ~K THEN OneTime(b, k, x)
        ELSE IF W THEN SumTo(LAMBDA y : F!Turn(At(b, y \div N, y % N), F!Space(e.L, k, y \div N) + F!Time(N, anti, x, y % N)), V * N)
        ELSE SumTo(LAMBDA r : F!Turn(At(b, r, x), F!Space(e.L, k, r)), V)
  IN If(Len(e.after) = Len(e.before) /\ Len(e.before) = e.sp * e.sp * V * N /\ e.shape[Len(e.shape)] = (IF e.smooth = 1 THEN N ELSE V), <<P, "shape of a transform", e.shape>>)
     \cup If(\A b \in 0..(e.sp * e.sp - 1) : \A k \in 0..(V - 1) : \A x \in 0..(N - 1) :
               Close(e.after[(b * V + k) * N + x + 1], Milli(Both(b, k, x)), 5), <<P, "Fourier transform", e.smooth, e.anti, e.L, e.nt, e.ops>>)
BackBad(e) == If(Len(e.after) = Len(e.before) /\ \A n \in 1..Len(e.before) : e.after[n] = <<1000 * e.before[n][1], 1000 * e.before[n][2]>>, <<P, "there and back", e.ops>>)
---------------------------------------------------------------------------
(* Lattice.FourierTransformation: with the sites where they are *)
RECURSIVE Vol(_)
Vol(L) == IF L = << >> THEN 1 ELSE Head(L) * Vol(Tail(L))
\* sum over pairs of sublattices and cells of values f(a, b, r), times nsub
Structure(n, L, kv(_), f(_, _, _)) ==
  LET ns == G!NSub(n)
      V == Vol(L)
      \* kv gives 72 p / L, or what stands for it, exactly when multiplied by a component in units of 1/q
      Phase(a, b, r) == LET x == G!Vector(n, a, b, F!Cell(L, r)) IN Sum1(LAMBDA d : kv(d + 1) * x[d + 1], Len(L))
  IN SumTo(LAMBDA y : LET a == y \div (ns * V) b == (y \div V) % ns r == y % V IN F!Turn(f(a, b, r), Phase(a, b, r) \div (12 * G!Geo[n].q)), ns * ns * V)
FtBad(e) ==
  LET ns == e.nsub
      V == Vol(e.L)
      D(a, b, r) == e.data[(a * ns + b) * V + r + 1]
  IN If(Len(e.K) = Len(e.p) /\ \A j \in 1..Len(e.p) : \A d \in 1..Len(e.L) : Abs(e.K[j][d] - 1000 * e.p[j][d]) <= 2, <<P, "momentum of integers", e.name, e.L, e.p, e.K>>)
     \cup If(Len(e.F) = Len(e.p) /\ \A j \in 1..Len(e.p) : Close(e.F[j], Milli(Structure(e.name, e.L, LAMBDA d : (864 * e.p[j][d]) \div e.L[d], D)), 20 + ((V * ns * ns) \div 10)),
             <<P, "transform to a momentum", e.name, e.L, e.p, e.F>>)
\* all momenta of the lattice on the way from one to another, both in 24ths
Momenta(L) == { k \in [1..Len(L) -> -4..4] : \A d \in 1..Len(L) : Abs(k[d]) <= L[d] }
OnWay(e, k) ==
  LET N == Len(e.L)
      s == e.start
      v == [d \in 1..N |-> e.end[d] - s[d]]
      \* k / L - start / 24 = x v / 24, in units of 1 / (24 * 12)
      u == [d \in 1..N |-> (288 * k[d]) \div e.L[d] - 12 * s[d]]
      m == CHOOSE d \in 1..N : \A f \in 1..N : Abs(v[f]) <= Abs(v[d])
  IN IF v[m] = 0 THEN \A d \in 1..N : u[d] = 0
     ELSE /\ \A d \in 1..N : u[d] * v[m] = u[m] * v[d]
          /\ u[m] * v[m] >= 0 /\ Abs(u[m]) <= 12 * Abs(v[m])
PathBad(e) ==
  LET got == { e.K[j] : j \in 1..Len(e.K) }
      want == { [d \in 1..Len(e.L) |-> 1000 * k[d]] : k \in { k \in Momenta(e.L) : OnWay(e, k) } }
  IN If(got = want /\ Len(e.K) = Cardinality(want), <<P, "momenta along a path", e.name, e.L, e.start, e.end, "too many:", got \ want, "missing:", want \ got>>)
---------------------------------------------------------------------------
(* Observable.Measure *)
NS == c.nsub
V == Vol(c.L)
Chi(x, a, b, r, t) == x[((a * NS + b) * V + r) * c.nt + t + 1]
Static(x, a, b, r) == SumTo(LAMBDA t : Chi(x, a, b, r, t), c.nt)
\* beta / nt times w, in thousandths; w is nsub times what is asked for
PerSite(w) == <<(c.beta * w[1]) \div (c.nt * NS), (c.beta * w[2]) \div (c.nt * NS)>>
\* the momentum of the staggered order, in 864ths of a turn
Nearest == c.L[1] \div 3
Staggered(d) ==
  CASE c.name = "Triangular" -> (864 * (IF d = 1 THEN 2 ELSE 1) * Nearest) \div c.L[1]
    [] c.name \in {"Chain", "Square", "Cubic"} -> 432
    [] c.name \in {"Checkerboard", "C3D"} -> IF d = 2 THEN 0 ELSE 864
    [] c.name = "ValenceBond" -> IF d = 1 THEN 432 ELSE 864
    [] c.name = "Pyrochlore" -> 432 * d
At5(x, k(_)) == Structure(c.name, c.L, k, LAMBDA a, b, r : Static(x, a, b, r))
Whole(w) == <<(w[1] + 50000) \div 100000, (w[2] + 50000) \div 100000>>
\* of staggered order with thirds of a turn not whole: in units of 10^-5 / nt / nsub
Fine(w) == <<((w[1] \div 1000) * c.beta) \div (100 * c.nt * NS), ((w[2] \div 1000) * c.beta) \div (100 * c.nt * NS)>>
Uniform(x) == SumTo(LAMBDA y : Static(x, y \div (NS * V), (y \div V) % NS, y % V), NS * NS * V)
Neighbours == G!BondsOf(c.name, FALSE, 0)
First(a) == { x \in G!BondsOf(c.name, FALSE, a) : x[3] \in {1, 4} }
Position(r) == LET w == G!Wrap(c.L, r) IN CHOOSE k \in 0..(V - 1) : F!Cell(c.L, k) = w
Energy(x) == SumTo(LAMBDA a : F!Sum(LAMBDA y : Chi(x, a, y[1], Position(y[2]), 0), First(a)), NS)
Div(w, n) == <<w[1] \div n, w[2] \div n>>
Times(n, w) == <<n * w[1], n * w[2]>>
\* the propagator just before the end of the period, twice
Gt(x, s, a, b, r, t) == x[((((s * NS + a) * 2 + s) * NS + b) * V + r) * c.nt + t + 1]
Last(x, s, a) == F!Add(Times(3, Gt(x, s, a, a, 0, c.nt - 1)), Times(-1, Gt(x, s, a, a, 0, c.nt - 2)))
Minus(w) == <<-w[1], -w[2]>>
HasStag == c.name \in {"Chain", "Square", "Cubic", "Checkerboard", "C3D", "ValenceBond", "Triangular"}
Density(w) == <<(w[1] * 1000) \div (V * NS * c.beta), (w[2] * 1000) \div (V * NS * c.beta)>>
\* name -> value, tolerance
Values(g) ==
  LET u == PerSite(Uniform(g.chi))
      ub == PerSite(Uniform(g.bk))
      s == Fine(At5(g.chi, Staggered))
      sb == Fine(At5(g.bk, Staggered))
      e == Div(Times(1000, Energy(g.chi)), NS)
      eb == Div(Times(1000, Energy(g.bk)), NS)
      Sz(a) == Times(-250, F!Add(Last(g.g, 1, a), Minus(Last(g.g, 0, a))))
      n(a) == Times(500, F!Add(Last(g.g, 1, a), Last(g.g, 0, a)))
  IN {<<"1-JP", <<1000 * g.least, 0>>, 0>>, <<"UnifChi", u, 2>>, <<"BKUnifChi", ub, 2>>, <<"Mag^2 density", Density(u), 3>>, <<"BK Mag^2 density", Density(ub), 3>>,
      <<"Energy", e, 2>>, <<"BK_Energy", eb, 2>>, <<"SumRule", Times(1000, Chi(g.chi, 0, 0, 0, 0)), 0>>, <<"BK_SumRule", Times(1000, Chi(g.bk, 0, 0, 0, 0)), 0>>}
     \cup (IF HasStag THEN {<<"StagChi", s, 60>>, <<"BKStagChi", sb, 60>>, <<"StagMag^2 density", Density(s), 60>>, <<"BK StagMag^2 density", Density(sb), 60>>} ELSE {})
     \cup (IF c.name = "ValenceBond" THEN {<<"VBS", PerSite(Times(NS, F!Add(Static(g.chi, 0, 1, 0), Minus(Static(g.chi, 0, 1, c.L[2] - 1))))), 2>>} ELSE {})
     \cup (IF c.name = "Pyrochlore" THEN {<<"Chi_X(4Pi,2Pi,0)", s, 60>>} ELSE {})
     \cup { <<"Sz", a, Sz(a)>> : a \in 0..(NS - 1) } \cup { <<"n", a, n(a)>> : a \in 0..(NS - 1) }
Got(e, name) == LET S == { v \in Range(e.values) : v[1] = name } IN IF S = {} THEN << >> ELSE (CHOOSE v \in S : TRUE)[2]
Label(x) == IF x[1] = "Sz" THEN "<Sz_" \o ToString(x[2]) \o ">" ELSE IF x[1] = "n" THEN "<n_" \o ToString(x[2]) \o ">" ELSE x[1]
Wanted(x) == IF x[1] \in {"Sz", "n"} THEN <<x[3], 1>> ELSE <<x[2], x[3]>>
\* the latest value is the last of a name's history
MeasuredBad(e) ==
  UNION { LET q == Got(e, Label(x)) w == Wanted(x) IN
          IF q = << >> THEN {<<P, "not measured", Label(x), c>>}
          ELSE If(Close(q[Len(q)], w[1], w[2]), <<P, "measured wrongly", Label(x), c, q[Len(q)], w[1]>>)
          : x \in Values(e.given) }
  \cup If(\A n \in DOMAIN h : LET q == Got(e, n) IN Len(q) > Len(h[n]) /\ SubSeq(q, 1, Len(h[n])) = h[n], <<P, "what was measured before is lost", c, DOMAIN h>>)
  \cup If(\A n \in {"chi", "bk", "g"} : \A m \in 1..Len(e.given[n]) : Close(e.kept[n][m], e.given[n][m], 0), <<P, "measuring changes what is measured", c>>)
---------------------------------------------------------------------------
Bad(e) ==
  CASE e.k = "fft" -> FftBad(e)
    [] e.k = "back" -> BackBad(e)
    [] e.k = "ft" -> FtBad(e)
    [] e.k = "path" -> PathBad(e)
    [] e.k = "measured" -> MeasuredBad(e)
    [] e.k = "fail" -> {<<P, "fails", e.what>>}
    [] e.k = "died" -> {<<P, "died", e.rc>>}
    [] OTHER -> {}
Step(e) ==
  CASE e.k = "system" -> c' = e /\ h' = << >>
    [] e.k = "measured" -> h' = [n \in { v[1] : v \in Range(e.values) } |-> Got(e, n)] /\ UNCHANGED c
    [] OTHER -> UNCHANGED <<c, h>>
Init == i = 1 /\ c = << >> /\ h = << >>
Next == i <= Len(Trace) /\ Step(Ev) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
