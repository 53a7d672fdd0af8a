------------------------------- MODULE Index -------------------------------
(* How a pair of end points - spins, sites, times - becomes a position in a *)
(* table.  A lattice is L = <<L1, L2>> with nsub sublattices; a site is     *)
(* <<sub, x1, x2>>; times are integers in units of a quarter of a bin, nt   *)
(* bins to the period; the spin of an end is one of ns values.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxL, MaxSub, MaxNt
VARIABLE c \* the lattice looked at: <<L1, L2, nsub, nt>>

Vol(L) == L[1] * L[2]
Mod1(a, n) == IF a < 0 THEN a + n ELSE IF a >= n THEN a - n ELSE a
Coords(L) == (0..(L[1] - 1)) \X (0..(L[2] - 1))
Vec2Index(L, v) == v[1] * L[2] + v[2]
Index2Vec(L, k) == <<k \div L[2], k % L[2]>>
Shift(L, v) == <<Mod1(v[1], L[1]), Mod1(v[2], L[2])>>
\* displacement from a to b
Disp(L, a, b) == Shift(L, <<b[2] - a[2], b[3] - a[3]>>)
Coord(L, a, b) == Vec2Index(L, Disp(L, a, b))
\* the bin of a time difference of d quarters, and its sign
Bin(nt, d) == IF d < 0 THEN (d \div 4) + nt ELSE d \div 4
Middle(b) == 2 * b + 1 \* in units of half a bin
SymFactor(anti, d) == IF d > 0 THEN 1 ELSE IF anti THEN -1 ELSE 1
Spin4(in, out) == 2 * in + out
\* the position: spin and sublattice of the two ends, displacement[, bin]
Flat(ns, L, nsub, sa, a, sb, b) ==
  (((sa * nsub + a[1]) * ns + sb) * nsub + b[1]) * Vol(L) + Coord(L, a, b)
Smooth(ns, L, nsub, nt, sa, a, sb, b, d) == Flat(ns, L, nsub, sa, a, sb, b) * nt + Bin(nt, d)
SizeDelta(ns, L, nsub) == ns * ns * nsub * nsub * Vol(L)

---------------------------------------------------------------------------
Sites(L, nsub) == { <<s, x, y>> : s \in 0..(nsub - 1), x \in 0..(L[1] - 1), y \in 0..(L[2] - 1) }
Init == c \in { <<l1, l2, s, n>> : l1 \in 1..MaxL, l2 \in 1..MaxL, s \in 1..MaxSub, n \in 1..MaxNt }
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
LL == <<c[1], c[2]>>
Ds == (-4 * c[4] + 1)..(4 * c[4] - 1)
S2 == Sites(LL, c[3])
\* displacements do not depend on where the pair is
Invariant ==
  \A a \in S2 : \A b \in S2 : \A v \in Coords(LL) :
     LET T(s) == <<s[1], (s[2] + v[1]) % c[1], (s[3] + v[2]) % c[2]>>
     IN Coord(LL, T(a), T(b)) = Coord(LL, a, b)
\* every table position is taken, each by one combination
OneToOne ==
  \A ns \in {2, 4} :
    LET K == { <<sa, s1, sb, s2, v>> : sa \in 0..(ns - 1), s1 \in 0..(c[3] - 1), sb \in 0..(ns - 1), s2 \in 0..(c[3] - 1), v \in Coords(LL) }
        F(k) == Flat(ns, LL, c[3], k[1], <<k[2], 0, 0>>, k[3], <<k[4], k[5][1], k[5][2]>>)
    IN { F(k) : k \in K } = 0..(SizeDelta(ns, LL, c[3]) - 1) /\ Cardinality(K) = SizeDelta(ns, LL, c[3])
Periodic == \A d \in Ds : d < 0 => Bin(c[4], d) = Bin(c[4], d + 4 * c[4])
BinRange == \A d \in Ds : Bin(c[4], d) \in 0..(c[4] - 1)
Inverse == /\ \A b \in 0..(c[4] - 1) : Bin(c[4], 2 * Middle(b)) = b
           /\ \A k \in 0..(Vol(LL) - 1) : Index2Vec(LL, k) \in Coords(LL) /\ Vec2Index(LL, Index2Vec(LL, k)) = k
           /\ \A v \in Coords(LL) : Index2Vec(LL, Vec2Index(LL, v)) = v
=============================================================================
