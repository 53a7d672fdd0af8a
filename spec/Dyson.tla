------------------------------- MODULE Dyson -------------------------------
(* The perturbative expansion in bold propagators the coordinator solves:    *)
(* what is of first order, the Dyson equations of the propagator and the     *)
(* interaction, and spin correlations.  Spins are 0 (down) and 1 (up); a     *)
(* pair of spins is 2 in + out.  Times are bins: functions are known in the  *)
(* middle of a bin, and propagators change sign with the period.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxNt, Span
VARIABLE c
F == INSTANCE Fourier WITH MaxL <- 1, MaxNt <- 1, c <- 0
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Neg(a) == <<-a[1], -a[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Scale(n, a) == <<n * a[1], n * a[2]>>
RECURSIVE SumTo(_, _)
\* f(0) + ... + f(n - 1)
SumTo(f(_), n) == IF n = 0 THEN <<0, 0>> ELSE Add(SumTo(f, n - 1), f(n - 1))
Sp(i, o) == 2 * i + o
---------------------------------------------------------------------------
(* First order.  G(s, a, b, r, t), W(sp, a, sq, b, r, t)                     *)
\* the exchange diagram
Fock(G(_, _, _, _, _), W(_, _, _, _, _, _), s, a, b, r, t) == SumTo(LAMBDA x : Neg(Mul(G(x, a, b, r, t), W(Sp(s, x), a, Sp(x, s), b, r, t))), 2)
\* twice the propagator at the end of its period, from its two last bins, which is minus that at time 0-
Twice(G(_, _, _, _, _), s, a, b, r, nt) == Sub(Scale(3, G(s, a, b, r, nt - 1)), G(s, a, b, r, nt - 2))
\* twice the instantaneous self energy: exchange at equal times and the field of all others
Instant(G(_, _, _, _, _), V(_, _, _, _, _), ns, vol, nt, s, a, b, r) ==
  Add(SumTo(LAMBDA x : Mul(Twice(G, x, a, b, r, nt), V(Sp(s, x), a, Sp(x, s), b, r)), 2),
      IF a # b \/ r # 0 THEN <<0, 0>>
      ELSE SumTo(LAMBDA y : LET x == y \div (ns * vol)
                                 d == (y \div vol) % ns
                                 q == y % vol
                             IN Neg(Mul(Twice(G, x, d, d, 0, nt), V(Sp(s, s), a, Sp(x, x), d, q))), 2 * ns * vol))
\* the bubble; back(r) is where -r is
Bubble(G(_, _, _, _, _), back(_), nt, p, a, q, b, r, t) ==
  LET s == p \div 2  x == p % 2
  IN IF q # Sp(x, s) THEN <<0, 0>> ELSE Neg(Mul(G(s, b, a, back(r), nt - 1 - t), G(x, a, b, r, t)))
\* twice twice the part of the correlation that is the product of two means
Means(G(_, _, _, _, _, _), nt, p, a, q, b) ==
  LET M(z, d) == Sub(Scale(3, G(z \div 2, d, z % 2, d, 0, nt - 1)), G(z \div 2, d, z % 2, d, 0, nt - 2)) IN Mul(M(p, a), M(q, b))
\* four times the correlation of Sz
SzSz(C(_, _, _, _), a, b) == Sub(Add(C(3, a, 3, b), C(0, a, 0, b)), Add(C(3, a, 0, b), C(0, a, 3, b)))
---------------------------------------------------------------------------
(* Two functions known in the middle of bins make, folded, one known at the  *)
(* ends of bins; brought back to the middle by the mean of both ends, this   *)
(* is the product of the transforms times the cosine of half a bin.  Three   *)
(* make one known in the middle again.                                       *)
NT == Len(c[1])
Anti == c[3]
f(t) == c[1][t + 1]
g(t) == c[2][t + 1]
\* folded, at the end n of a bin
RECURSIVE Folded(_, _)
Folded(T, n) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE
  IN (IF Anti /\ ((x[1] + x[2] + 1) \div NT) % 2 # (n \div NT) % 2 THEN -1 ELSE 1) * f(x[1]) * g(x[2]) + Folded(T \ {x}, n)
Fold(n) == Folded({ x \in (0..(NT - 1)) \X (0..(NT - 1)) : (x[1] + x[2] + 1) % NT = n % NT }, n)
HalfAngle(m) == IF Anti THEN (18 * (2 * m + 1)) \div NT ELSE (36 * m) \div NT
FT(u(_), m) == SumTo(LAMBDA t : F!Turn(<<u(t), 0>>, F!Time(NT, Anti, m, t)), NT)
Close(a, b, tol) == LET Abs(x) == IF x < 0 THEN -x ELSE x IN Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
FoldOk == \A m \in 0..(NT - 1) :
   LET H(t) == Fold(t) + Fold(t + 1)
       a == FT(f, m)  b == FT(g, m)
       p == Mul(<<a[1] \div 100, a[2] \div 100>>, <<b[1] \div 100, b[2] \div 100>>)
       k == F!Cos(HalfAngle(m)) \div 100
       w == <<(2 * ((p[1] \div 1000) * k)) \div 1000, (2 * ((p[2] \div 1000) * k)) \div 1000>>
       h == FT(H, m)
   IN Close(<<h[1] \div 100, h[2] \div 100>>, w, 120)
Init == c \in UNION { [1..n -> Span] \X [1..n -> Span] \X {TRUE} : n \in {1, 2, 3} } \cup UNION { [1..n -> Span] \X [1..n -> Span] \X {FALSE} : n \in {1, 2, 3, MaxNt} }
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
=============================================================================
