----------------------------- MODULE Estimator -----------------------------
(***************************************************************************)
(* A scalar estimator.  Sums and the norm are in units of 1/64 so that     *)
(* squeezing by powers of two stays exact.  An estimator is a record:      *)
(*   a, b  sum of the samples, real and imaginary part                     *)
(*   n     norm                                                            *)
(*   c     snapshots asked for since the start, or the last clear          *)
(*   hist  which of those snapshots are kept, and the estimate at each     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Unit == 64
Fresh == [a |-> 0, b |-> 0, n |-> Unit, c |-> 0]
Measure(x, p, q) == [x EXCEPT !.a = @ + Unit * p, !.b = @ + Unit * q, !.n = @ + Unit]
Snap(x, m) == [x EXCEPT !.c = @ + m]
Scale(v, e) == IF e >= 0 THEN v \div (2 ^ e) ELSE v * (2 ^ (-e))
Squeeze(x, e) == [x EXCEPT !.a = Scale(@, e), !.b = Scale(@, e), !.n = Scale(@, e)]
(* The history: at most Size entries, in order, never a hole longer than     *)
(* 8/Size of the run, and evenly spaced but where it was thinned out.        *)
RECURSIVE Thinned(_, _)
Thinned(Size, c) == IF c <= Size THEN 0 ELSE 1 + Thinned(Size, (c + 1) \div 2)
Gap(calls, j) == calls[j + 1] - calls[j]
Even(calls, k) == LET N == Len(calls) - 1 IN
  N <= k \/ \E i \in {1, (N + 1) \div 2, N, N - 1} : i > 0 /\ Cardinality({ j \in 1..N : Gap(calls, j) # Gap(calls, i) }) <= k
Covers(Size, c, calls) ==
  LET L == Len(calls) IN
  IF c <= Size THEN calls = [j \in 1..c |-> j]
  ELSE /\ L <= Size
       /\ \A j \in 1..L : calls[j] >= 1 /\ calls[j] <= c
       /\ \A j \in 1..(L - 1) : calls[j] < calls[j + 1]
       /\ LET G == (8 * c) \div Size + 8 IN
          /\ L > 0 /\ calls[1] <= G /\ c - calls[L] <= G
          /\ \A j \in 1..(L - 1) : calls[j + 1] - calls[j] <= G
       /\ Even(calls, Thinned(Size, c) + 1)

(* ---- the design, with a history of Size entries ------------------------- *)
CONSTANTS Size, MaxCalls, Samples
VARIABLES e, hist, interval, counter, log
\* log: <<sum, norm>> of the samples since the last clear, in the same units
vars == <<e, hist, interval, counter, log>>
Init == e = Fresh /\ hist = << >> /\ interval = 1 /\ counter = 0 /\ log = <<0, Unit>>
AddSample == \E t \in Samples : e' = Measure(e, t, 0) /\ log' = <<log[1] + Unit * t, log[2] + Unit>> /\ UNCHANGED <<hist, interval, counter>>
Half(h) == [j \in 1..(Len(h) \div 2) |-> h[2 * j - 1]]
AddSnap == /\ e.c < MaxCalls
           /\ e' = Snap(e, 1) /\ UNCHANGED log
           /\ IF Len(hist) = Size
              THEN hist' = Half(hist) /\ interval' = 2 * interval /\ UNCHANGED counter
              ELSE IF counter + 1 >= interval
                   THEN hist' = Append(hist, e'.c) /\ counter' = 0 /\ UNCHANGED interval
                   ELSE counter' = counter + 1 /\ UNCHANGED <<hist, interval>>
Clear == e' = Fresh /\ hist' = << >> /\ interval' = 1 /\ counter' = 0 /\ log' = <<0, Unit>>
DoSqueeze == /\ e.a % 2 = 0 /\ e.n % 2 = 0 /\ log[1] % 2 = 0 /\ log[2] % 2 = 0
             /\ e' = Squeeze(e, 1) /\ log' = <<log[1] \div 2, log[2] \div 2>>
             /\ UNCHANGED <<hist, interval, counter>>
Next == AddSample \/ AddSnap \/ Clear \/ DoSqueeze
Spec == Init /\ [][Next]_vars
Bound == e.n <= 3 * Unit
Exact == e.a = log[1] /\ e.n = log[2]
History == Covers(Size, e.c, hist)
SnapKeepsMean == [][(e'.c # e.c /\ e'.c > e.c) => e'.a = e.a /\ e'.n = e.n]_vars
SqueezeKeepsMean == [][(e'.c = e.c /\ e'.n < e.n /\ e'.c > 0 /\ e'.a # 0) => e'.a * e.n = e.a * e'.n]_vars
=============================================================================
