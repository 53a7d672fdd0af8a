----------------------------- MODULE Symmetry -----------------------------
(* Three-point functions are kept once per class of equivalent arguments.  *)
(* An argument is <<v1, v2, t1, t2>>: displacements of the two ends from   *)
(* the third point on a lattice L = <<L1, L2>>, and the bins of their      *)
(* times.  Mirrors of the lattice move both displacements; exchanging the  *)
(* two ends together with their times gives minus the complex conjugate.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Sizes, Names, MaxNt
VARIABLE c \* the lattice looked at: <<L1, L2, name of its symmetry, nt>>
Ix == INSTANCE Index WITH MaxL <- 1, MaxSub <- 1, MaxNt <- 1
Wrap(x, n) == x % n
Image(name, L, g, v) ==
  LET x == v[1] y == v[2] IN
  LET w == CASE g = 1 -> <<x, y>>
             [] g = 2 -> <<-x, -y>>
             [] g = 3 -> IF name = "Triangular" THEN <<-x - y, y>> ELSE <<-x, y>>
             [] g = 4 -> IF name = "Triangular" THEN <<x + y, -y>> ELSE <<x, -y>>
  IN <<Wrap(w[1], L[1]), Wrap(w[2], L[2])>>
Mirrors(name) == IF name \in {"Square", "Triangular"} THEN 1..4 ELSE {1}
\* the class of a pair of displacements
Class(name, L, p) == { <<Image(name, L, g, p[1]), Image(name, L, g, p[2])>> : g \in Mirrors(name) }
Pairs(L) == Ix!Coords(L) \X Ix!Coords(L)
Less(p, q) == \* the order in which pairs are numbered
  LET a == p[1] \o p[2] b == q[1] \o q[2] IN
  \E k \in 1..4 : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
First(S) == CHOOSE p \in S : \A q \in S : q = p \/ Less(p, q)
Classes(name, L) == { Class(name, L, p) : p \in Pairs(L) }
\* times: the half with t1 <= t2 is kept, the other half is flagged
Kept(t1, t2) == t1 <= t2
Times(nt) == (0..(nt - 1)) \X (0..(nt - 1))
TauSize(nt) == (nt * (nt + 1)) \div 2
TauIndex(nt, t1, t2) == LET a == IF t1 <= t2 THEN t1 ELSE t2
                            b == IF t1 <= t2 THEN t2 ELSE t1
                        IN a * nt - (a * (a - 1)) \div 2 + (b - a)
\* where the value at an argument is kept: the class of its displacements,
\* the two ends exchanged if the pair of times is flagged
Home(name, L, p, t1, t2) == <<Class(name, L, IF Kept(t1, t2) THEN p ELSE <<p[2], p[1]>>), IF Kept(t1, t2) THEN <<t1, t2>> ELSE <<t2, t1>>>>
\* how many arguments share it, and whether this one is minus the conjugate
Share(name, L, p, t1, t2) == Cardinality(Class(name, L, p)) * (IF t1 = t2 THEN 1 ELSE 2)
Conjugated(t1, t2) == ~Kept(t1, t2)
Args(L, nt) == Pairs(L) \X Times(nt)
HomeOf(name, L, a) == Home(name, L, a[1], a[2][1], a[2][2])
Exchange(a) == <<<<a[1][2], a[1][1]>>, <<a[2][2], a[2][1]>>>>
---------------------------------------------------------------------------
SizesDef == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<3, 3>>}
Init == c \in { <<s[1], s[2], n, t>> : s \in Sizes, n \in Names, t \in 1..MaxNt }
          /\ (c[1] * c[2] > 6 => c[4] < MaxNt)
          /\ (c[3] = "Triangular" => c[1] = c[2]) \* a lattice without this symmetry otherwise
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
LL == <<c[1], c[2]>>
Name == c[3]
Partition == \A p \in Pairs(LL) : \A q \in Class(Name, LL, p) : Class(Name, LL, q) = Class(Name, LL, p) /\ p \in Class(Name, LL, p)
\* the exchange of the ends maps classes to classes
ExchangeOk == \A p \in Pairs(LL) : { <<q[2], q[1]>> : q \in Class(Name, LL, p) } = Class(Name, LL, <<p[2], p[1]>>)
TausOk == { TauIndex(c[4], t[1], t[2]) : t \in Times(c[4]) } = 0..(TauSize(c[4]) - 1)
          /\ \A t \in Times(c[4]), u \in Times(c[4]) : TauIndex(c[4], t[1], t[2]) = TauIndex(c[4], u[1], u[2]) <=> u \in {t, <<t[2], t[1]>>}
\* an argument and its exchange are kept in one place, and only one of them is
\* conjugated, unless the times are equal; the arguments of one place are as many as counted
HomesOk == \A a \in Args(LL, c[4]) :
             /\ a[2][1] # a[2][2] => HomeOf(Name, LL, Exchange(a)) = HomeOf(Name, LL, a) /\ Conjugated(a[2][1], a[2][2]) # Conjugated(a[2][2], a[2][1])
ShareOk == \A a \in { x \in Args(LL, c[4]) : x[1] = First(Class(Name, LL, x[1])) } :
             Cardinality({ b \in Args(LL, c[4]) : HomeOf(Name, LL, b) = HomeOf(Name, LL, a) }) = Share(Name, LL, a[1], a[2][1], a[2][2])
=============================================================================
