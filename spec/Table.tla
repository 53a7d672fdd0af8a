------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* A statistics table.  Sums and norms are in units of 1/4096.  A table is *)
(*   a     what each bin holds, for the bins ever recorded in              *)
(*   n     the accumulated norm                                            *)
(*   k     the inverse temperature is 2^k                                  *)
(*   norm  the normalization constant times (2^k)^p                        *)
(* An estimate is a[bin] / n * norm / (2^k)^p.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
U == 4096
Fresh(norm, k) == [a |-> << >>, n |-> 0, k |-> k, norm |-> norm]
At(x, b) == IF b \in DOMAIN x.a THEN x.a[b] ELSE <<0, 0>>
\* w: real and imaginary part of the sample, in units
Add(x, b, w) == [x EXCEPT !.a = [j \in DOMAIN x.a \cup {b} |-> IF j = b THEN <<At(x, b)[1] + w[1], At(x, b)[2] + w[2]>> ELSE x.a[j]]]
AddNorm(x, w) == [x EXCEPT !.n = @ + w]
Times2(v, e) == IF e >= 0 THEN v * (2 ^ e) ELSE v \div (2 ^ (-e))
Squeeze(x, e) == [x EXCEPT !.a = [j \in DOMAIN x.a |-> <<Times2(x.a[j][1], -e), Times2(x.a[j][2], -e)>>], !.n = Times2(@, -e)]
Clear(x) == [x EXCEPT !.a = << >>, !.n = 0]
Anneal(x, p, k) == [x EXCEPT !.n = Times2(@, p * (x.k - k)), !.k = k]
\* what a table of this size holds after taking over y's
Import(x, y, size) == [x EXCEPT !.a = [j \in { d \in DOMAIN y.a : d < size } |-> y.a[j]], !.n = y.n, !.norm = y.norm]
NonZero(x) == { <<j, x.a[j][1], x.a[j][2]>> : j \in { d \in DOMAIN x.a : x.a[d] # <<0, 0>> } }

(* ---- the design ---------------------------------------------------------- *)
CONSTANTS P, Ks, Bins, Ws, Cap
VARIABLES t, log
\* log: the samples since the start, as a table of its own that only ever adds
\* and clears
vars == <<t, log>>
Init == t = Fresh(1, 2) /\ log = << >>
Exactly(e) == \A b \in DOMAIN t.a : t.a[b][1] % (64 * 2 ^ e) = 0
Next ==
  \/ Len(log) < Cap /\ \E b \in Bins, w \in Ws : t' = Add(t, b, <<U * w, 0>>) /\ log' = Append(log, <<b, U * w>>)
  \/ Len(log) < Cap /\ t' = AddNorm(t, U) /\ log' = Append(log, <<-1, U>>)
  \/ Exactly(1) /\ t.n % 128 = 0 /\ t' = Squeeze(t, 1) /\ log' = [j \in DOMAIN log |-> <<log[j][1], log[j][2] \div 2>>]
  \/ t' = Clear(t) /\ log' = << >>
  \/ \E k \in Ks : k # t.k /\ t.n % (64 * 2 ^ P) = 0 /\ t.n < U * 64 /\ t' = Anneal(t, P, k) /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
RECURSIVE SumOf(_, _)
SumOf(q, b) == IF q = << >> THEN 0 ELSE (IF Head(q)[1] = b THEN Head(q)[2] ELSE 0) + SumOf(Tail(q), b)
\* a bin holds what was recorded there and nothing else
Sums == \A b \in Bins : At(t, b)[1] = SumOf(log, b)
\* a change of temperature or a squeeze leaves every estimate as it is:
\* a/n * norm/2^(kp) is the same, that is a * n' * 2^(k'p) = a' * n * 2^(kp)
KeepsEstimates == [][
  (t'.k # t.k \/ (t'.n # t.n /\ Len(log') = Len(log) /\ t'.n < t.n)) =>
     \A b \in Bins : (At(t, b)[1] \div 64) * (t'.n \div 64) * (2 ^ (t'.k * P)) = (At(t', b)[1] \div 64) * (t.n \div 64) * (2 ^ (t.k * P))]_vars
=============================================================================
