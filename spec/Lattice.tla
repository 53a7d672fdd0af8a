------------------------------ MODULE Lattice ------------------------------
(* The lattices and the models on them, by geometry: where the sites are,    *)
(* how far apart, and which pairs of sites a coupling joins.                  *)
(* A lattice vector has integer components in units of 1/q of the unit       *)
(* vectors; its squared length is x.g.x / (s q q).                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes  \* sizes of a side looked at
VARIABLE c       \* <<name, L>>

P2 == <<<<2, 1>>, <<1, 2>>>>
P3 == <<<<2, 1, 1>>, <<1, 2, 1>>, <<1, 1, 2>>>>
Geo == [
  Chain               |-> [q |-> 1, s |-> 1, g |-> <<<<1>>>>, sub |-> <<<<0>>>>],
  Square              |-> [q |-> 1, s |-> 1, g |-> <<<<1, 0>>, <<0, 1>>>>, sub |-> <<<<0, 0>>>>],
  Checkerboard        |-> [q |-> 2, s |-> 1, g |-> <<<<2, 0>>, <<0, 2>>>>, sub |-> <<<<0, 0>>, <<1, 1>>>>],
  ValenceBond         |-> [q |-> 2, s |-> 1, g |-> <<<<1, 0>>, <<0, 4>>>>, sub |-> <<<<0, 0>>, <<0, 1>>>>],
  Triangular          |-> [q |-> 1, s |-> 2, g |-> P2, sub |-> <<<<0, 0>>>>],
  Assymetric_Triangular |-> [q |-> 3, s |-> 2, g |-> P2, sub |-> <<<<0, 0>>, <<1, 1>>, <<2, -1>>>>],
  Honeycomb           |-> [q |-> 3, s |-> 2, g |-> <<<<2, -1>>, <<-1, 2>>>>, sub |-> <<<<0, 0>>, <<2, 1>>>>],
  Kagome              |-> [q |-> 2, s |-> 2, g |-> P2, sub |-> <<<<1, 0>>, <<0, 1>>, <<1, 1>>>>],
  Cubic               |-> [q |-> 1, s |-> 1, g |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, sub |-> <<<<0, 0, 0>>>>],
  C3D                 |-> [q |-> 2, s |-> 1, g |-> <<<<2, 0, 1>>, <<0, 2, 1>>, <<1, 1, 2>>>>, sub |-> <<<<0, 0, 0>>, <<1, 1, 0>>>>],
  Pyrochlore          |-> [q |-> 2, s |-> 4, g |-> P3, sub |-> <<<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>]]
Names == DOMAIN Geo
Dim(n) == Len(Geo[n].g)
NSub(n) == Len(Geo[n].sub)
RECURSIVE SumTo(_, _)
SumTo(F(_), k) == IF k = 0 THEN 0 ELSE SumTo(F, k - 1) + F(k)
\* squared length
D2(n, x) == SumTo(LAMBDA i : x[i] * SumTo(LAMBDA j : Geo[n].g[i][j] * x[j], Len(x)), Len(x))
\* from a site of sublattice a to one of b, r cells further on (a, b from 0)
Vector(n, a, b, r) == [d \in 1..Dim(n) |-> Geo[n].q * r[d] + Geo[n].sub[b + 1][d] - Geo[n].sub[a + 1][d]]
RECURSIVE Cells(_)
Cells(L) == IF Len(L) = 1 THEN { <<x>> : x \in 0..(L[1] - 1) } ELSE { <<x>> \o v : x \in 0..(L[1] - 1), v \in Cells(Tail(L)) }
RECURSIVE Box(_, _)
Box(d, k) == IF d = 1 THEN { <<x>> : x \in -k..k } ELSE { <<x>> \o v : x \in -k..k, v \in Box(d - 1, k) }
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the three shortest squared distances
Shells == [
  Chain |-> <<1, 4, 9>>, Square |-> <<1, 2, 4>>, Checkerboard |-> <<4, 8, 16>>, ValenceBond |-> <<4, 8, 16>>, Triangular |-> <<2, 6, 8>>, Assymetric_Triangular |-> <<6, 18, 24>>,
  Honeycomb |-> <<6, 18, 24>>, Kagome |-> <<2, 6, 8>>, Cubic |-> <<1, 2, 3>>, C3D |-> <<4, 8, 12>>, Pyrochlore |-> <<2, 6, 8>>]
Distances(n) == { D2(n, Vector(n, a, b, r)) : a \in 0..(NSub(n) - 1), b \in 0..(NSub(n) - 1), r \in Box(Dim(n), IF Dim(n) = 1 THEN 3 ELSE 2) } \ {0}
Shortest(n) ==
  LET D == TLCEval(Distances(n))
      d1 == Min(D)
      d2 == Min(D \ {d1})
  IN <<d1, d2, Min(D \ {d1, d2})>>
\* is there a site half way?
Halfway(n, a, x) ==
  \E k \in 0..(NSub(n) - 1) :
    LET y == [d \in 1..Dim(n) |-> x[d] + 2 * (Geo[n].sub[a + 1][d] - Geo[n].sub[k + 1][d])]
    IN \A d \in 1..Dim(n) : y[d] % (2 * Geo[n].q) = 0
\* which coupling joins two sites x apart, the first on sublattice a: 0 for none
Bond(n, a, x) ==
  LET d == D2(n, x)
      sh == Shells[n] IN
  CASE n = "ValenceBond" ->
         IF d # sh[1] THEN 0 ELSE IF x[2] = 0 THEN 1 ELSE IF (a = 0) = (x[2] > 0) THEN 4 ELSE 2
    [] n \in {"Kagome", "Pyrochlore"} ->
         IF d = sh[1] THEN 1 ELSE IF d = sh[2] THEN 2 ELSE IF d = sh[3] /\ Halfway(n, a, x) = (n = "Pyrochlore") THEN 3 ELSE 0
    [] OTHER -> IF d = sh[1] THEN 1 ELSE IF d = sh[2] THEN 2 ELSE 0
\* the three directions of the honeycomb's bonds, from sublattice 0
Direction(x) == CASE x = <<2, 1>> -> 1 [] x = <<-1, 1>> -> 2 [] x = <<-1, -2>> -> 3 [] OTHER -> 0
BondK(a, x) == Direction(IF a = 0 THEN x ELSE <<-x[1], -x[2]>>)
---------------------------------------------------------------------------
(* Couplings between spins: four times the operator, as a matrix between    *)
(* pairs of spins p = 2 in + out                                            *)
One(b) == IF b THEN 1 ELSE 0
SS(p, q) == 2 * One(p \div 2 = q % 2) * One(p % 2 = q \div 2) - One(p \div 2 = p % 2) * One(q \div 2 = q % 2)
SxSx(p, q) == One(p \in {1, 2} /\ q \in {1, 2})
SySy(p, q) == IF p \in {1, 2} /\ q \in {1, 2} THEN IF p = q THEN -1 ELSE 1 ELSE 0
SzSz(p, q) == IF p \in {0, 3} /\ q \in {0, 3} THEN IF p = q THEN 1 ELSE -1 ELSE 0
\* J: the couplings; J[4] is what the pairs of a valence bond have on top of the first
Strength(J, k) == CASE k = 0 -> 0 [] k = 4 -> J[1] + J[4] [] OTHER -> J[k]
RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN F(x) + SumSet(F, S \ {x})
\* all bonds of a site of sublattice a: the other sublattice, how many cells away, which coupling
BondsOf(n, kitaev, a) ==
  { x \in { <<b, r, IF kitaev THEN IF a = b THEN 0 ELSE BondK(a, Vector(n, a, b, r)) ELSE Bond(n, a, Vector(n, a, b, r))>>
            : b \in 0..(NSub(n) - 1), r \in Box(Dim(n), 2) } : x[3] # 0 }
Wrap(L, r) == [d \in 1..Len(L) |-> r[d] % L[d]]
\* all bonds of the periodic lattice between two sites, r cells apart
Between(bonds, L, J, b, r) == SumSet(LAMBDA x : Strength(J, x[3]), { x \in bonds : x[1] = b /\ Wrap(L, x[2]) = r })
\* the same by direction, on the honeycomb
BetweenK(bonds, L, J, b, r) == [k \in 1..3 |-> J[k] * Cardinality({ x \in bonds : x[1] = b /\ x[3] = k /\ Wrap(L, x[2]) = r })]
\* the bare interaction: what is not zero of it, in quarters
Spins(k, p, q) == CASE k = 0 -> SS(p, q) [] k = 1 -> SxSx(p, q) [] k = 2 -> SySy(p, q) [] k = 3 -> SzSz(p, q)
Bare(n, kitaev, L, J) ==
  UNION { LET all == TLCEval(BondsOf(n, kitaev, a)) IN
          UNION { LET S == TLCEval({ x \in all : <<x[1], Wrap(L, x[2])>> = br })
                      V(p, q) == IF kitaev THEN SumSet(LAMBDA x : J[x[3]] * Spins(x[3], p, q), S) ELSE SS(p, q) * SumSet(LAMBDA x : Strength(J, x[3]), S)
                  IN { y \in { <<pq[1], a, pq[2], br[1], br[2], TLCEval(V(pq[1], pq[2]))>> : pq \in (0..3) \X (0..3) } : y[6] # 0 }
                  : br \in { <<x[1], Wrap(L, x[2])>> : x \in all } }
          : a \in 0..(NSub(n) - 1) }
\* how many bonds of each kind a site has
Count(n, a, k) == Cardinality({ <<b, r>> \in (0..(NSub(n) - 1)) \X Box(Dim(n), 2) : Bond(n, a, Vector(n, a, b, r)) = k })
---------------------------------------------------------------------------
Init == c \in { <<n, L>> : n \in Names, L \in UNION { [1..d -> Sizes] : d \in 1..3 } } /\ Len(c[2]) = Dim(c[1])
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
N == c[1]
LL == c[2]
Subs == 0..(NSub(N) - 1)
Neg(r) == [d \in 1..Len(r) |-> (LL[d] - r[d]) % LL[d]]
JJ == <<1, 10, 100, 1000>>
\* the interaction is between pairs: the same either way round
ShellsOk == Shells[N] = Shortest(N)
Mutual == LET Bs == TLCEval([a \in Subs |-> TLCEval(BondsOf(N, FALSE, a))]) IN
          \A a \in Subs : \A b \in Subs : \A r \in Cells(LL) : Between(Bs[a], LL, JJ, b, r) = Between(Bs[b], LL, JJ, a, Neg(r))
MutualK == N = "Honeycomb" => LET Bs == TLCEval([a \in Subs |-> TLCEval(BondsOf(N, TRUE, a))]) IN
          \A a \in Subs : \A b \in Subs : \A r \in Cells(LL) : BetweenK(Bs[a], LL, JJ, b, r) = BetweenK(Bs[b], LL, JJ, a, Neg(r))
Alike == \A p \in 0..3 : \A q \in 0..3 : SS(p, q) = SS(q, p) /\ SxSx(p, q) = SxSx(q, p) /\ SySy(p, q) = SySy(q, p) /\ SzSz(p, q) = SzSz(q, p)
\* on the honeycomb the three directions are its bonds
ThreeWays == N = "Honeycomb" => \A a \in Subs : \A r \in Cells(LL) : LET k == BetweenK(BondsOf(N, TRUE, a), LL, <<1, 1, 1>>, 1 - a, r) IN k[1] + k[2] + k[3] = Between(BondsOf(N, FALSE, a), LL, <<1, 0, 0, 0>>, 1 - a, r)
\* the numbers of neighbours everybody knows
Known == [Chain |-> <<2, 2, 0, 0>>, Square |-> <<4, 4, 0, 0>>, Checkerboard |-> <<4, 4, 0, 0>>, ValenceBond |-> <<2, 1, 0, 1>>, Triangular |-> <<6, 6, 0, 0>>,
          Assymetric_Triangular |-> <<6, 6, 0, 0>>, Honeycomb |-> <<3, 6, 0, 0>>, Kagome |-> <<4, 4, 2, 0>>, Cubic |-> <<6, 12, 0, 0>>, C3D |-> <<6, 12, 0, 0>>, Pyrochlore |-> <<6, 12, 6, 0>>]
Neighbours == \A a \in Subs : \A k \in 1..4 : Count(N, a, k) = Known[N][k]
\* every bond of a site is in the table, however small the lattice
AllBonds == \A a \in Subs : LET bs == TLCEval(BondsOf(N, FALSE, a)) IN SumSet(LAMBDA br : Between(bs, LL, JJ, br[1], br[2]), Subs \X Cells(LL)) = SumTo(LAMBDA k : Known[N][k] * Strength(JJ, k), 4)
\* spins are conserved and the coupling is the same in all directions
Isotropic == \A p \in 0..3 : \A q \in 0..3 : SS(p, q) = SxSx(p, q) + SySy(p, q) + SzSz(p, q) /\ (SS(p, q) # 0 => (p \div 2) + (q \div 2) = (p % 2) + (q % 2))
=============================================================================
