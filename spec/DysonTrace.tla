----------------------------- MODULE DysonTrace -----------------------------
(* Recordings of the coordinator's perturbation theory.                       *)
EXTENDS TraceLib
VARIABLE i
vars == <<i>>
D == INSTANCE Dyson WITH MaxNt <- 1, Span <- {0}, c <- 0
F == INSTANCE Fourier WITH MaxL <- 1, MaxNt <- 1, c <- 0
Ev == Trace[i]
P == "C29"
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Size(z) == Max(Abs(z[1]), Abs(z[2]))
Close(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
RECURSIVE MaxTo(_, _)
MaxTo(f(_), n) == IF n = 0 THEN 0 ELSE Max(MaxTo(f, n - 1), f(n - 1))
\* x[i, j, r, t] of a table with n rows, and x[i, j, r]
At(x, n, V, nt, p, q, r, t) == x[((p * n + q) * V + r) * nt + t + 1]
Minus(L, r) == LET p == F!Cell(L, r) IN CHOOSE k \in 0..(F!VolOf(L) - 1) : F!Cell(L, k) = [d \in 1..Len(L) |-> (L[d] - p[d]) % L[d]]
---------------------------------------------------------------------------
Gof(e) == [s |-> 2 * e.ns]
G(e, s, a, x, b, r, t) == At(e.G, 2 * e.ns, e.V, e.nt, s * e.ns + a, x * e.ns + b, r, t)
Everywhere(e, n, T(_, _, _, _)) == \A p \in 0..(n - 1) : \A q \in 0..(n - 1) : \A r \in 0..(e.V - 1) : \A t \in 0..(e.nt - 1) : T(p, q, r, t)
FockBad(e) ==
  LET n == 2 * e.ns
      g(s, a, b, r, t) == G(e, s, a, s, b, r, t)
      w(p, a, q, b, r, t) == At(e.W, 4 * e.ns, e.V, e.nt, p * e.ns + a, q * e.ns + b, r, t)
  IN If(Len(e.out) = n * n * e.V * e.nt /\ Everywhere(e, n, LAMBDA p, q, r, t : At(e.out, n, e.V, e.nt, p, q, r, t) =
          (IF p \div e.ns # q \div e.ns THEN <<0, 0>> ELSE D!Fock(g, w, p \div e.ns, p % e.ns, q % e.ns, r, t))), <<P, "self energy of first order">>)
InstantBad(e) ==
  LET n == 2 * e.ns
      g(s, a, b, r, t) == G(e, s, a, s, b, r, t)
      w(p, a, q, b, r) == At(e.W, 4 * e.ns, e.V, 1, p * e.ns + a, q * e.ns + b, r, 0)
  IN If(Len(e.out) = n * n * e.V /\ \A p \in 0..(n - 1) : \A q \in 0..(n - 1) : \A r \in 0..(e.V - 1) : At(e.out, n, e.V, 1, p, q, r, 0) =
          (IF p \div e.ns # q \div e.ns THEN <<0, 0>> ELSE D!Instant(g, w, e.ns, e.V, e.nt, p \div e.ns, p % e.ns, q % e.ns, r)), <<P, "instantaneous self energy">>)
BubbleBad(e) ==
  LET n == 4 * e.ns
      g(s, a, b, r, t) == G(e, s, a, s, b, r, t)
      back(r) == Minus(e.L, r)
  IN If(Len(e.out) = n * n * e.V * e.nt /\ Everywhere(e, n, LAMBDA p, q, r, t : At(e.out, n, e.V, e.nt, p, q, r, t) =
          D!Bubble(g, back, e.nt, p \div e.ns, p % e.ns, q \div e.ns, q % e.ns, r, t)), <<P, "polarization of first order">>)
MeansBad(e) ==
  LET n == 4 * e.ns
      g(s, a, x, b, r, t) == G(e, s, a, x, b, r, t)
  IN If(Len(e.out) = Len(e.C) /\ Everywhere(e, n, LAMBDA p, q, r, t : At(e.out, n, e.V, e.nt, p, q, r, t) =
          D!Add(D!Scale(4, At(e.C, n, e.V, e.nt, p, q, r, t)), D!Means(g, e.nt, p \div e.ns, p % e.ns, q \div e.ns, q % e.ns))), <<P, "product of means">>)
SzSzBad(e) ==
  LET n == e.ns
  IN If(Len(e.out) = n * n * e.V * e.nt /\ Everywhere(e, n, LAMBDA a, b, r, t : At(e.out, n, e.V, e.nt, a, b, r, t) =
          D!SzSz(LAMBDA p, x, q, y : At(e.C, 4 * n, e.V, e.nt, p * n + x, q * n + y, r, t), a, b)), <<P, "correlation of Sz">>)
---------------------------------------------------------------------------
(* Dyson equations: 1 - K times what came is what it was given.               *)
(* K and unknowns are in thousandths.                                         *)
Matrix(n, f(_, _)) == [p \in 0..(n - 1) |-> [q \in 0..(n - 1) |-> f(p, q)]]
Times(n, A, B) == TLCEval([p \in 0..(n - 1) |-> [q \in 0..(n - 1) |-> D!SumTo(LAMBDA l : D!Mul(A[p][l], B[l][q]), n)]])
Big(n, A) == MaxTo(LAMBDA y : Size(A[y \div n][y % n]), n * n)
Table(x, n, V, nt, r, t) == TLCEval(Matrix(n, LAMBDA p, q : At(x, n, V, nt, p, q, r, t)))
\* X - K X = R, or X - X K = R; nothing is said about numbers that are too large
Solves(n, K, X, R, left) ==
  LET k == Big(n, K) x == Big(n, X) IN
  \/ k > 10000 \/ x > 20000
  \/ LET Y == IF left THEN Times(n, K, X) ELSE Times(n, X, K)
         tol == (n * (2 * x + 2 * k)) + 2000
     IN \A p \in 0..(n - 1) : \A q \in 0..(n - 1) : Close(D!Sub(D!Scale(1000, X[p][q]), Y[p][q]), D!Scale(1000000, R[p][q]), tol)
\* the determinant of 1 - K in thousandths, of the rows from p on and some columns
RECURSIVE Det(_, _, _, _)
Det(n, K, p, S) ==
  IF p = n THEN <<1000, 0>>
  ELSE D!SumTo(LAMBDA q : IF q \notin S THEN <<0, 0>> ELSE
      LET m == IF p = q THEN D!Sub(<<1000, 0>>, K[p][q]) ELSE D!Neg(K[p][q])
          w == IF m = <<0, 0>> THEN m ELSE D!Mul(m, Det(n, K, p + 1, S \ {q}))
          v == <<w[1] \div 1000, w[2] \div 1000>>
      IN IF Cardinality({ x \in S : x < q }) % 2 = 0 THEN v ELSE D!Neg(v), n)
Small(n, K) == n <= 4 /\ Big(n, K) <= 2000
Points(e) == (0..(e.V - 1)) \X (0..(e.nt - 1))
\* determinants where they can be told
Dets(e, n, K(_)) == [x \in Points(e) |-> IF Small(n, TLCEval(K(x))) THEN Det(n, TLCEval(K(x)), 0, 0..(n - 1)) ELSE <<>>]
Tol(z) == 150 + (Size(z) \div 20)
\* it must not fail if all determinants have a positive real part, and must if they are real and one is negative
FailBad(e, n, d, known) ==
  IF e.how = "no"
  THEN If(~known \/ e.real = 0 \/ \A x \in Points(e) : d[x] = << >> \/ d[x][1] > -Tol(d[x]), <<P, "goes on although the denominator has touched zero", e.k>>)
  ELSE If(~known \/ \E x \in Points(e) : d[x] = << >> \/ d[x][1] < Tol(d[x]), <<P, "fails although the denominator has not touched zero", e.k, e.how>>)
GKernel(e, x) ==
  LET n == 2 * e.ns
      g == Table(e.G0, n, e.V, e.nt, x[1], x[2])
      A == Times(n, g, Table(e.S, n, e.V, e.nt, x[1], x[2]))
      B == Times(n, g, Table(e.D, n, e.V, 1, x[1], 0))
      k == F!Cos((18 * (2 * x[2] + 1)) \div e.nt)
      U(a, b) == ((e.f * e.f * 125 * a) \div 8) + ((e.f * b * k) \div 800)
  IN TLCEval(Matrix(n, LAMBDA p, q : <<U(A[p][q][1], B[p][q][1]), U(A[p][q][2], B[p][q][2])>>))
GDysonBad(e) ==
  LET n == 2 * e.ns
      K == TLCEval([x \in Points(e) |-> GKernel(e, x)])
      d == TLCEval(Dets(e, n, LAMBDA x : K[x]))
  IN FailBad(e, n, d, TRUE)
     \cup (IF e.how # "no" THEN {} ELSE
       If(Len(e.G) = Len(e.G0) /\ \A x \in Points(e) : Solves(n, K[x], Table(e.G, n, e.V, e.nt, x[1], x[2]), Table(e.G0, n, e.V, e.nt, x[1], x[2]), TRUE), <<P, "Dyson equation of the propagator">>))
WDysonBad(e) ==
  LET n == 4 * e.ns
      p(x) == Table(e.P, n, e.V, e.nt, x[1], x[2])
      j(x) == Table(e.J, n, e.V, 1, x[1], 0)
      JP == TLCEval([x \in Points(e) |-> Times(n, j(x), p(x))])
      K == TLCEval([x \in Points(e) |-> LET k == F!Cos((36 * x[2]) \div e.nt)
                                            U(a) == (e.f * a * k) \div 800
                                        IN TLCEval(Matrix(n, LAMBDA y, z : <<U(JP[x][y][z][1]), U(JP[x][y][z][2])>>))])
      d == TLCEval(Dets(e, n, LAMBDA x : K[x]))
  IN FailBad(e, n, d, TRUE)
     \cup (IF e.how # "no" THEN {} ELSE
       If(Len(e.W) = Len(e.P) /\ \A x \in Points(e) : Solves(n, K[x], Table(e.W, n, e.V, e.nt, x[1], x[2]), Times(n, JP[x], j(x)), TRUE), <<P, "Dyson equation of the interaction">>)
       \* P + P W P and so on: the same from either side
       \cup If(Len(e.C) = Len(e.P) /\ \A x \in Points(e) : Solves(n, K[x], Table(e.C, n, e.V, e.nt, x[1], x[2]), Matrix(n, LAMBDA y, z : D!Neg(p(x)[y][z])), FALSE), <<P, "correlation of all orders">>)
       \cup If(Len(e.det) = e.V * e.nt /\ \A x \in Points(e) : d[x] = << >> \/ Close(e.det[x[1] * e.nt + x[2] + 1], d[x], Tol(d[x])), <<P, "determinant">>))
---------------------------------------------------------------------------
Bad(e) ==
  (CASE e.k = "fock" -> FockBad(e)
    [] e.k = "instant" -> InstantBad(e)
    [] e.k = "bubble" -> BubbleBad(e)
    [] e.k = "means" -> MeansBad(e)
    [] e.k = "szsz" -> SzSzBad(e)
    [] e.k = "gdyson" -> GDysonBad(e)
    [] e.k = "wdyson" -> WDysonBad(e)
    [] e.k = "fail" -> {<<P, "fails", e.what>>}
    [] e.k = "died" -> {<<P, "died", e.rc>>}
    [] OTHER -> {})
  \cup (IF e.k \in {"fock", "instant", "bubble", "means", "szsz", "gdyson", "wdyson"} THEN If(e.kept = 1, <<P, "changes what it is given", e.k>>) ELSE {})
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
