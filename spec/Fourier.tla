------------------------------ MODULE Fourier ------------------------------
(* Fourier transforms by their definition, with phases in 72nds of a turn    *)
(* and values in units of 10^-5.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxL, MaxNt
VARIABLE c
Quarter == <<100000, 99619, 98481, 96593, 93969, 90631, 86603, 81915, 76604, 70711, 64279, 57358, 50000, 42262, 34202, 25882, 17365, 8716, 0>>
Cos(m) == LET n == m % 72 IN
  IF n <= 18 THEN Quarter[n + 1] ELSE IF n <= 36 THEN -Quarter[37 - n] ELSE IF n <= 54 THEN -Quarter[n - 35] ELSE Quarter[73 - n]
Sin(m) == Cos(m - 18)
\* w exp(-2 pi i m / 72)
Turn(w, m) == <<w[1] * Cos(m) + w[2] * Sin(m), w[2] * Cos(m) - w[1] * Sin(m)>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE Sum(_, _)
Sum(F(_), S) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE x \in S : TRUE IN Add(F(x), Sum(F, S \ {x}))
\* the cells of a lattice by their position in a table
RECURSIVE VolOf(_)
VolOf(L) == IF L = << >> THEN 1 ELSE Head(L) * VolOf(Tail(L))
RECURSIVE Cell(_, _)
Cell(L, k) == IF L = << >> THEN << >> ELSE LET v == VolOf(Tail(L)) IN <<k \div v>> \o Cell(Tail(L), k % v)
RECURSIVE Dot(_, _, _)
\* p.r, L in turns by 72
Dot(L, p, r) == IF L = << >> THEN 0 ELSE ((72 * Head(p) * Head(r)) \div Head(L)) + Dot(Tail(L), Tail(p), Tail(r))
\* momentum k and cell r
Space(L, k, r) == Dot(L, Cell(L, k), Cell(L, r))
\* frequency m and time bin t of nt, in the middle of the bin; odd multiples of pi / beta for what changes sign with the period
Time(nt, anti, m, t) == IF anti THEN (18 * (2 * m + 1) * (2 * t + 1)) \div nt ELSE (36 * m * (2 * t + 1)) \div nt
---------------------------------------------------------------------------
Init == c \in [1..3 -> 1..MaxL] \X (1..MaxNt)
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
LL == c[1]
NT == c[2]
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b, tol) == Abs(a[1] - b[1]) <= tol /\ Abs(a[2] - b[2]) <= tol
Unit == 100000
\* the table turns: by twice an angle is twice, by angles that add up to the next (in 10^-4)
TableOk == \A m \in 0..71 :
   LET w == Turn(<<1, 0>>, m)
       v == <<w[1] \div 10, w[2] \div 10>>
       z == Turn(<<1, 0>>, m + 1)
       x == Turn(v, 1)
   IN Abs(v[1] * v[1] + v[2] * v[2] - 100000000) < 30000 /\ Close(<<x[1] \div 10000, x[2] \div 10000>>, <<z[1], z[2]>>, 20)
V == VolOf(LL)
\* there and back is the same
SpaceOk == \A r \in 0..(V - 1) : Close(Sum(LAMBDA k : Turn(<<1, 0>>, Space(LL, k, r)), 0..(V - 1)), <<IF r = 0 THEN V * Unit ELSE 0, 0>>, V)
TimeOk == \A anti \in BOOLEAN : \A t \in 0..(NT - 1) : \A u \in 0..(NT - 1) :
   Close(Sum(LAMBDA m : Turn(<<1, 0>>, Time(NT, anti, m, t) - Time(NT, anti, m, u)), 0..(NT - 1)), <<IF t = u THEN NT * Unit ELSE 0, 0>>, NT)
=============================================================================
