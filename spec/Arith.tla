------------------------------- MODULE Arith --------------------------------
(***************************************************************************)
(* The arithmetic the simulation rests on: momenta are the integers modulo *)
(* 2 MaxK + 1 in symmetric representation; complex numbers are recorded as  *)
(* Gaussian integers going in and in units of 10^-4 coming out.            *)
(***************************************************************************)
EXTENDS Integers
CONSTANT MaxK
N == 2 * MaxK + 1
Rep(k) == ((k + MaxK) % N) - MaxK
Abs(x) == IF x < 0 THEN -x ELSE x

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Mod2(a) == a[1] * a[1] + a[2] * a[2]
Conj(a) == <<a[1], -a[2]>>
RECURSIVE CPow(_, _)
CPow(a, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(a, CPow(a, n - 1))

U == 10000
Is(r, c) == r[1] = U * c[1] /\ r[2] = U * c[2]
Close(x, y, e) == Abs(x - y) <= e
\* r = a / b up to the last recorded digit: r |b|^2 = a conj(b)
Quot(r, a, b) == LET c == CMul(a, Conj(b))
                     m == Mod2(b)
                     \* rounded quotient, exact whatever the size
                     OK(x, y) == LET w == x \div m
                                     f == x % m
                                 IN Abs((y - U * w) * m - U * f) <= m
                 IN OK(c[1], r[1]) /\ OK(c[2], r[2])
\* r = sqrt(n) for a natural n, in units of 10^-4: compared at 10^-2 to stay in range
Root(r, n) == r >= 0 /\ LET q == r \div 100 IN (q = 0 \/ (q - 1) * (q - 1) <= n * 10000) /\ (q + 1) * (q + 1) >= n * 10000

\* the eighth of the plane a number lies in, counted from -4 (just above the
\* negative real axis is 3); whole: on the border of an eighth
Eighth(x, y) ==
  CASE y = 0 /\ x > 0 -> 0
    [] y = 0 /\ x < 0 -> 4
    [] x = 0 /\ y > 0 -> 2
    [] x = 0 /\ y < 0 -> -2
    [] x = y /\ x > 0 -> 1
    [] x = -y /\ y > 0 -> 3
    [] x = y /\ x < 0 -> -3
    [] x = -y /\ y < 0 -> -1
    [] y > 0 /\ x > y -> 0
    [] y > 0 /\ x > 0 -> 1
    [] y > 0 /\ -x < y -> 2
    [] y > 0 -> 3
    [] x > -y -> -1
    [] x > 0 -> -2
    [] -x < -y -> -3
    [] OTHER -> -4
Whole(x, y) == x = 0 \/ y = 0 \/ x = y \/ x = -y

\* the group laws, on a small instance, checked by TLC
CONSTANT Small
Group == \A a, b, c \in -Small..Small :
  LET n == 2 * Small + 1
      R(k) == ((k + Small) % n) - Small
  IN /\ R(a) = a
     /\ R(R(a + b) + c) = R(a + R(b + c))
     /\ R(R(a - b) + b) = a
     /\ R(-a) = -a
     /\ R(a + b) = R(b + a)
     /\ R(R(a) - R(b)) \in -Small..Small
Field == \A a, b \in (-2..2) \X (-2..2) :
  /\ CMul(a, b) = CMul(b, a)
  /\ Mod2(CMul(a, b)) = Mod2(a) * Mod2(b)
  /\ CMul(a, Conj(a)) = <<Mod2(a), 0>>
  /\ (b # <<0, 0>> => Quot(<<U * a[1], U * a[2]>>, CMul(a, b), b))
VARIABLE z
Init == z = 0
Next == UNCHANGED z
Spec == Init /\ [][Next]_z
Laws == Group /\ Field
=============================================================================
