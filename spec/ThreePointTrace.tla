-------------------------- MODULE ThreePointTrace --------------------------
(* Recordings of the coordinator's three-point functions.                     *)
EXTENDS TraceLib
VARIABLE i
vars == <<i>>
T == INSTANCE ThreePoint WITH MaxNt <- 1, Span <- {0}, c <- 0
F == INSTANCE Fourier WITH MaxL <- 1, MaxNt <- 1, c <- 0
D == INSTANCE DysonTrace
Ev == Trace[i]
P == "C30"
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Size(z) == Max(Abs(z[1]), Abs(z[2]))
Close(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
\* vertex[s, r, t1, t2]
V4(x, e, s, r, t1, t2) == x[((s * e.V + r) * e.nt + t1) * e.nt + t2 + 1]
\* [k, r1, r2, t1, t2]
V5(x, e, k, r1, r2, t1, t2) == x[(((k * e.V + r1) * e.V + r2) * e.nt + t1) * e.nt + t2 + 1]
\* local propagator [s, s', r, t], interaction [p, q, r, t] on one sublattice
G(e, s, t) == e.G[((s * 2 + s) * e.V) * e.nt + t + 1]
W(e, p, q, r, t) == e.W[((p * 4 + q) * e.V + r) * e.nt + t + 1]
Len4(x, e) == Len(x) = 2 * e.V * e.nt * e.nt
Every4(e, f(_, _, _, _)) == Len4(e.out, e) /\ \A s \in 0..1 : \A r \in 0..(e.V - 1) : \A t1 \in 0..(e.nt - 1) : \A t2 \in 0..(e.nt - 1) : V4(e.out, e, s, r, t1, t2) = f(s, r, t1, t2)
Diff(L, a, b) == LET x == F!Cell(L, a) y == F!Cell(L, b) IN CHOOSE k \in 0..(F!VolOf(L) - 1) : F!Cell(L, k) = [d \in 1..Len(L) |-> (x[d] - y[d]) % L[d]]
BareBad(e) == If(Every4(e, LAMBDA s, r, t1, t2 : T!Bare(LAMBDA t : G(e, 1, t), e.nt, s, r, t1, t2)), <<P, "bare vertex">>)
ExchangedBad(e) ==
  If(Every4(e, LAMBDA s, r, t1, t2 : T!Exchanged(LAMBDA a, b, x, y : V4(e.Vx, e, a, b, x, y), LAMBDA p, q, t : W(e, p, q, 0, t), e.nt, s, r, t1, t2)), <<P, "vertex with an interaction">>)
LegsBad(e) ==
  If(Every4(e, LAMBDA s, r, t1, t2 : T!Scale(e.f * e.f, T!Legs(LAMBDA a, b, x, y : V4(e.Vx, e, a, b, x, y), LAMBDA x, t : G(e, x, t), e.nt, s, r, t1, t2))), <<P, "vertex with propagators">>)
LoopBad(e) ==
  If(Len(e.out) = 2 * e.V * e.V * e.nt * e.nt /\ \A k \in 0..1 : \A r1 \in 0..(e.V - 1) : \A r2 \in 0..(e.V - 1) : \A t1 \in 0..(e.nt - 1) : \A t2 \in 0..(e.nt - 1) :
       V5(e.out, e, k, r1, r2, t1, t2) = IF r1 # r2 THEN <<0, 0>> ELSE T!Loop(LAMBDA a, b, x, y : V4(e.Vx, e, a, b, x, y), LAMBDA x, t : G(e, x, t), e.nt, k, r1, t1, t2), <<P, "loop of a vertex">>)
\* in units of 1 / 256; single precision
DressedBad(e) ==
  LET u == TLCEval([r \in 0..(e.V - 1) |-> [t \in 0..(e.nt - 1) |->
                  T!Add(T!Scale(e.f, T!EvenAt(LAMBDA x : W(e, 3, 3, r, x), e.nt, t)), IF t = 0 THEN T!Scale(16, e.W0[(3 * 4 + 3) * e.V + r + 1]) ELSE <<0, 0>>)]])
      dif == TLCEval([a \in 0..(e.V - 1) |-> [b \in 0..(e.V - 1) |-> Diff(e.L, a, b)]])
      want(k, r1, r2, t1, t2) == T!Dressed(LAMBDA q1, q2, x1, x2 : V5(e.M, e, k, q1, q2, x1, x2), LAMBDA r, t : u[r][t], LAMBDA a, b : dif[a][b], e.V, e.nt, k, r1, r2, t1, t2)
  IN If(Len(e.out) = Len(e.M) /\ \A k \in 0..1 : \A r1 \in 0..(e.V - 1) : \A r2 \in 0..(e.V - 1) : \A t1 \in 0..(e.nt - 1) : \A t2 \in 0..(e.nt - 1) :
          Close(V5(e.out, e, k, r1, r2, t1, t2), want(k, r1, r2, t1, t2), 20), <<P, "vertex of two interactions with the interactions">>)
ClosedBad(e) ==
  If(Every4(e, LAMBDA s, r, t1, t2 : T!Closed(LAMBDA k, x, y : V5(e.M, e, k, r, r, x, y), LAMBDA x, t : G(e, x, t), e.nt, s, t1, t2)), <<P, "vertex from that of two interactions">>)
\* all correlations, from the vertex with its ends together; C - C K = -P
FullBad(e) ==
  LET p(x) == D!Table(e.P, 4, e.V, e.nt, x[1], x[2])
      K == TLCEval([x \in D!Points(e) |-> LET k == F!Cos((36 * x[2]) \div e.nt)
                                              A == D!Times(4, D!Table(e.J, 4, e.V, 1, x[1], 0), p(x))
                                              U(a) == (e.f * a * k) \div 800
                                          IN TLCEval(D!Matrix(4, LAMBDA y, z : <<U(A[y][z][1]), U(A[y][z][2])>>))])
      d == TLCEval(D!Dets(e, 4, LAMBDA x : K[x]))
  IN If(Len(e.C) = Len(e.P) /\ \A x \in D!Points(e) : D!Solves(4, K[x], D!Table(e.C, 4, e.V, e.nt, x[1], x[2]), D!Matrix(4, LAMBDA y, z : T!Neg(p(x)[y][z])), FALSE), <<P, "correlation from the vertex">>)
     \cup If(Len(e.det) = e.V * e.nt /\ \A x \in D!Points(e) : d[x] = << >> \/ Close(e.det[x[1] * e.nt + x[2] + 1], d[x], D!Tol(d[x])), <<P, "determinant">>)
---------------------------------------------------------------------------
Bad(e) ==
  (CASE e.k = "bare" -> BareBad(e)
    [] e.k = "exchanged" -> ExchangedBad(e)
    [] e.k = "legs" -> LegsBad(e)
    [] e.k = "loop" -> LoopBad(e)
    [] e.k = "dressed" -> DressedBad(e)
    [] e.k = "closed" -> ClosedBad(e)
    [] e.k = "full" -> FullBad(e)
    [] e.k = "fail" -> {<<P, "fails", e.what>>}
    [] e.k = "died" -> {<<P, "died", e.rc>>}
    [] OTHER -> {})
  \cup (IF e.k \in {"bare", "exchanged", "legs", "loop", "dressed", "closed", "full"} THEN If(e.kept = 1, <<P, "changes what it is given", e.k>>) ELSE {})
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
