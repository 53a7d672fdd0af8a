----------------------------- MODULE ThreePoint -----------------------------
(* Three-point functions in the coordinator: a vertex between the two ends   *)
(* of a propagator (spin s, cell r, times of its ends) is dressed with       *)
(* propagators and interactions.  Functions are known in the middle of bins  *)
(* and wanted at their ends: the mean of two neighbours, with the sign of a  *)
(* propagator beyond its period.  Spins are 0 (down) and 1 (up).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Span, MaxNt
VARIABLE c
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Neg(a) == <<-a[1], -a[2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Scale(n, a) == <<n * a[1], n * a[2]>>
Conj(a) == <<a[1], -a[2]>>
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN <<0, 0>> ELSE Add(SumTo(f, n - 1), f(n - 1))
\* what changes sign with its period nt, in any bin
Odd(g(_), nt, t) == LET k == t \div nt IN IF k % 2 = 0 THEN g(t - k * nt) ELSE Neg(g(t - k * nt))
\* twice what it is at the beginning of a bin
OddAt(g(_), nt, t) == Add(Odd(g, nt, t - 1), Odd(g, nt, t))
EvenAt(w(_), nt, t) == Add(w((t - 1) % nt), w(t % nt))
---------------------------------------------------------------------------
\* two propagators from the point to the ends; g(t) is that of spin up
Bare(g(_), nt, s, r, t1, t2) == IF s = 1 /\ r = 0 THEN Mul(g(t1), Odd(g, nt, -t2 - 1)) ELSE <<0, 0>>
\* twice the vertex with an interaction between the ends: w(p, q, t), V(s, r, t1, t2)
Exchanged(V(_, _, _, _), w(_, _, _), nt, s, r, t1, t2) ==
  SumTo(LAMBDA x : LET p == 2 * s + x q == 2 * x + s
                       W(t) == w(p, q, t)
                   IN Neg(Mul(V(x, r, t1, t2), EvenAt(W, nt, t1 - t2))), 2)
\* the vertex with propagators at both ends: 4 times, but for the measure of the two times; g(s, t)
Legs(V(_, _, _, _), g(_, _), nt, s, r, t1, t2) ==
  LET h(t) == g(s, t) IN
  SumTo(LAMBDA y : LET u == y \div nt v == y % nt IN Mul(Mul(OddAt(h, nt, t1 - u), V(s, r, u, v)), OddAt(h, nt, v - t2)), nt * nt)
\* twice the vertex of two interactions: a loop of the vertex and a propagator, both ways around.
\* k = 0: both ends with equal spins, summed; k = 1: the ends flip a spin
Loop(V(_, _, _, _), g(_, _), nt, k, r, t1, t2) ==
  LET at(s, t) == LET h(u) == g(s, u) IN OddAt(h, nt, t) IN
  Neg(IF k = 0 THEN SumTo(LAMBDA s : Add(Mul(at(s, t2 - t1), V(s, r, t1, t2)), Mul(at(s, t1 - t2), V(s, r, t2, t1))), 2)
      ELSE Add(Mul(at(0, t2 - t1), V(1, r, t1, t2)), Mul(at(1, t1 - t2), V(0, r, t2, t1))))
\* a vertex of two interactions, M(r1, r2, t1, t2), with the interactions: u(r, t) is one; minus, and 4 times where the ends flip a spin
Dressed(M(_, _, _, _), u(_, _), diff(_, _), vol, nt, k, r1, r2, t1, t2) ==
  LET N == vol * nt IN
  Scale(IF k = 0 THEN -1 ELSE -4,
     SumTo(LAMBDA y : LET q1 == y \div nt x1 == y % nt IN
        Mul(u(diff(r1, q1), (t1 - x1) % nt),
            SumTo(LAMBDA z : LET q2 == z \div nt x2 == z % nt IN Mul(M(q1, q2, x1, x2), u(diff(r2, q2), (t2 - x2) % nt)), N)), N))
\* twice the vertex of the propagator between two such ends; M(k, t1, t2)
Closed(M(_, _, _), g(_, _), nt, s, t1, t2) ==
  LET at(x) == LET h(u) == g(x, u) IN OddAt(h, nt, t1 - t2)
      m(k) == IF s = 1 THEN M(k, t1, t2) ELSE Neg(Conj(M(k, t1, t2)))
  IN Add(Mul(at(s), m(0)), Mul(at(1 - s), m(1)))
---------------------------------------------------------------------------
(* The sign beyond the period is the same from all periods, and going around *)
(* twice comes back; the loop is the same from either of its ends.           *)
g0(t) == <<c[t + 1], c[Len(c) - t]>>
Nt == Len(c)
PeriodOk == \A t \in (-2 * Nt)..(2 * Nt) : /\ OddAt(g0, Nt, t + Nt) = Neg(OddAt(g0, Nt, t))
                                           /\ EvenAt(g0, Nt, t + Nt) = EvenAt(g0, Nt, t)
                                           /\ Odd(g0, Nt, t) \in { g0(u) : u \in 0..(Nt - 1) } \cup { Neg(g0(u)) : u \in 0..(Nt - 1) }
V0(s, r, t1, t2) == <<c[t1 + 1] * (s + 1), c[t2 + 1] - s>>
gs(s, t) == Scale(s + 1, g0(t))
LoopOk == \A t1, t2 \in 0..(Nt - 1) : Loop(V0, gs, Nt, 0, 0, t1, t2) = Loop(V0, gs, Nt, 0, 0, t2, t1)
Init == c \in UNION { [1..n -> Span] : n \in 1..MaxNt }
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
=============================================================================
