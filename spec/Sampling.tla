------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* How often the chain is to be seen in each kind of physical diagram.     *)
(*                                                                         *)
(* Nothing here refers to updates.  The diagrams of order n are written    *)
(* down from scratch: n interaction lines (line j from vertex 2j-1 to      *)
(* vertex 2j), a permutation of the 2n vertices that says where the        *)
(* propagator leaving each of them goes, a measuring line, which lines are *)
(* instantaneous, a spin for every propagator such that every interaction  *)
(* line conserves spin, a site for every fermion loop, and an insertion or *)
(* none.  Irreducible: no interaction line and no pair of lines of one     *)
(* kind cuts the diagram in two.  Each is to be visited in proportion to   *)
(*                                                                         *)
(*   |weight| x reweighting of its order and sector x the volume of its    *)
(*   times x 2^-n, as a line and its reverse are one interaction.          *)
(*                                                                         *)
(* At order 0 nothing but the measuring line of the diagram that was left  *)
(* is remembered, one of two propagators or the interaction line, and the  *)
(* weight is the number of sites.                                          *)
(*                                                                         *)
(* What is visited how often follows for every *kind* of diagram: order,   *)
(* measuring line, number of fermion loops, of instantaneous lines,        *)
(* insertion, and (if looked at) the number of lines that exchange spin    *)
(* and of lines that join two sites.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Cfg
Dg == INSTANCE Diagram

VN == <<"v1", "v2", "v3", "v4", "v5", "v6">>
GN == <<"g1", "g2", "g3", "g4", "g5", "g6">>
WN == <<"w1", "w2", "w3">>

(* --- wiring ------------------------------------------------------------ *)
RECURSIVE Spread(_, _, _)
Spread(S, GS, WS) ==
  LET T == S \cup { e[2] : e \in { d \in GS : d[1] \in S } } \cup { e[1] : e \in { d \in GS : d[2] \in S } }
             \cup { 2*j : j \in { i \in WS : 2*i - 1 \in S } } \cup { 2*j - 1 : j \in { i \in WS : 2*i \in S } }
  IN IF T = S THEN S ELSE Spread(T, GS, WS)
Whole(n, GS, WS) == Spread({1}, GS, WS) = 1..(2*n)
Irreducible(n, f) ==
  LET GS == { <<x, f[x]>> : x \in 1..(2*n) }
      WS == 1..n
  IN /\ Whole(n, GS, WS)
     /\ \A j \in WS : Whole(n, GS, WS \ {j})
     /\ \A j, k \in WS : j < k => Whole(n, GS, WS \ {j, k})
     /\ \A x, y \in 1..(2*n) : x < y => Whole(n, GS \ {<<x, f[x]>>, <<y, f[y]>>}, WS)
Inverse(f) == [y \in DOMAIN f |-> CHOOSE x \in DOMAIN f : f[x] = y]
\* a diagram does not change when its interaction lines are renumbered: one of each class, with the size of the class
Relabel(n, f, p) ==
  LET Q == [x \in 1..(2*n) |-> IF x % 2 = 1 THEN 2*p[(x+1) \div 2] - 1 ELSE 2*p[x \div 2]]
      Qi == Inverse(Q)
  IN [y \in 1..(2*n) |-> Q[f[Qi[y]]]]
RECURSIVE Less(_, _, _)
Less(f, g, k) == IF k > Len(f) THEN FALSE ELSE IF f[k] # g[k] THEN f[k] < g[k] ELSE Less(f, g, k+1)
Class(n, f) == { Relabel(n, f, p) : p \in Permutations(1..n) }
Wirings(n) ==
  LET I == TLCEval({ f \in Permutations(1..(2*n)) : Irreducible(n, f) })
      Firsts == TLCEval({ f \in I : \A h \in Class(n, f) : ~Less(h, f, 1) })
  IN { [f |-> f, m |-> Cardinality(Class(n, f))] : f \in Firsts }
RECURSIVE Orbit(_, _, _)
Orbit(f, x, S) == IF x \in S THEN S ELSE Orbit(f, f[x], S \cup {x})
Loops(f) == { Orbit(f, x, {}) : x \in DOMAIN f }
Fact(n) == IF n <= 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE 6

(* --- everything else about a diagram ------------------------------------ *)
\* s[x]: the spin of the propagator that leaves x; fr: where the propagator that enters comes from
Spins(n, fr) ==
  { s \in [1..(2*n) -> {0, 1}] : \A j \in 1..n : s[fr[2*j-1]] + s[fr[2*j]] = s[2*j-1] + s[2*j] }
Places(f) == { [x \in DOMAIN f |-> p[CHOOSE l \in Loops(f) : x \in l]] : p \in [Loops(f) -> Dg!Sites] }
State(n, f, fr, ml, dl, s, r) ==
  [ord |-> n, sg |-> 1, ins |-> 0, host |-> "none", u |-> Dg!NoExt, worm |-> Dg!NoWorm, meas |-> ml,
   v |-> [q \in { VN[x] : x \in 1..(2*n) } |->
            LET x == CHOOSE y \in 1..(2*n) : VN[y] = q
            IN [gi |-> GN[fr[x]], go |-> GN[x], w |-> WN[(x + 1) \div 2], d |-> IF x % 2 = 1 THEN 0 ELSE 1,
                si |-> s[fr[x]], so |-> s[x], r |-> r[x], t |-> <<0, 0>>]],
   g |-> [q \in { GN[x] : x \in 1..(2*n) } |->
            LET x == CHOOSE y \in 1..(2*n) : GN[y] = q IN [i |-> VN[x], o |-> VN[f[x]], k |-> 0]],
   w |-> [q \in { WN[j] : j \in 1..n } |->
            LET j == CHOOSE i \in 1..n : WN[i] = q IN [i |-> VN[2*j-1], o |-> VN[2*j], k |-> 0, dl |-> q \in dl]]]
\* where an insertion can be, and the site of its external point
Insertions(n, ml, dl) ==
  {<<0, "none", <<0,0,0>>>>}
  \cup (IF ~Cfg.g3 THEN {}
        ELSE { <<1, h, r>> : h \in { GN[x] : x \in 1..(2*n) } \ {ml}, r \in Dg!Sites }
             \cup { <<2, h, r>> : h \in { WN[j] : j \in 1..n } \ (dl \cup {ml}), r \in Dg!Sites })

(* --- how often ----------------------------------------------------------- *)
Fine == Cfg.fine
Kind(n, mk, f, dl, ins, ex, nl) ==
  <<n, mk, Cardinality(Loops(f)), Cardinality(dl), ins, IF Fine THEN ex ELSE 0, IF Fine THEN nl ELSE 0>>
Factor(n, mk, dl, ins) ==
  Cfg.orw[n+1] + (IF mk = 1 THEN Cfg.pr ELSE 0) + Cfg.lb * (2*n - Cardinality(dl)) - n
  + (IF ins = 0 THEN 0 ELSE Cfg.lb + (IF mk = 0 THEN Cfg.ggr ELSE Cfg.gwr))
\* the modulus of the weight (an exponent): with flat tables every conserving diagram has weight one
WeightOf(n, f, fr, ml, dl, s, r, h) ==
  IF Cfg.flat THEN <<0, 0>>
  ELSE Dg!Weight([State(n, f, fr, ml, dl, s, r) EXCEPT !.ins = h[1], !.host = h[2],
                                                       !.u = [r |-> h[3], t |-> <<0, 0>>, s |-> 1]])
\* every diagram of one wiring: its kind, its weight with all factors, and what tells it from the others
Members(n, mk, f) ==
  LET fr == TLCEval(Inverse(f))
      S == TLCEval(Spins(n, fr))
      R == TLCEval(Places(f))
      All == UNION { { <<ml, dl, h>> : h \in Insertions(n, ml, dl) } :
                     <<ml, dl>> \in { p \in (IF mk = 0 THEN { GN[x] : x \in 1..(2*n) } ELSE { WN[j] : j \in 1..n })
                                           \X SUBSET { WN[j] : j \in 1..n } : p[1] \notin p[2] } }
      Ex(s) == Cardinality({ j \in 1..n : s[fr[2*j-1]] # s[2*j-1] })
      Nl(r) == Cardinality({ j \in 1..n : r[2*j-1] # r[2*j] })
      row(c, s, r) ==
        LET w == WeightOf(n, f, fr, c[1], c[2], s, r, c[3])
        IN IF Dg!IsZero(w) THEN <<>>
           ELSE <<Kind(n, mk, f, c[2], c[3][1], Ex(s), Nl(r)), w[1] + Factor(n, mk, c[2], c[3][1]), c, s, r>>
  IN { x \in { row(y[1], y[2], y[3]) : y \in All \X S \X R } : x # <<>> }
\* ... and how many there are of each kind and weight, in units of a sixth
Census(n, mk, w) ==
  LET M == TLCEval(Members(n, mk, w.f))
      K == TLCEval({ <<x[1], x[2]>> : x \in M })
  IN [k \in K |-> w.m * (6 \div Fact(n)) * Cardinality({ x \in M : x[1] = k[1] /\ x[2] = k[2] })]
\* order 0 in the same units
Nothing(mk) ==
  <<<<0, mk, 0, 0, 0, 0, 0>>, Cfg.orw[1] + (IF mk = 1 THEN Cfg.pr ELSE 0) + Dg!NormE - 1>> :> (6 * (IF mk = 0 THEN 2 ELSE 1))
RECURSIVE Merge(_)
Merge(q) ==
  IF q = <<>> THEN <<>>
  ELSE LET H == TLCEval(Merge(Tail(q)))
           G == Head(q)
       IN [k \in (DOMAIN G) \cup (DOMAIN H) |-> (IF k \in DOMAIN G THEN G[k] ELSE 0) + (IF k \in DOMAIN H THEN H[k] ELSE 0)]
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AsSeq(S \ {x})
Orders == 1..Cfg.maxord
Cases == UNION { { <<n, mk, w>> : mk \in {0, 1}, w \in TLCEval(Wirings(n)) } : n \in Orders }
Table ==
  LET C == TLCEval(AsSeq(Cases))
  IN Merge(<<Nothing(0), Nothing(1)>> \o [j \in DOMAIN C |-> TLCEval(Census(C[j][1], C[j][2], C[j][3]))])

(* --- fractions, in units of 10^-7 ----------------------------------------- *)
Unit == 10000000
RECURSIVE Digits(_, _, _)
Digits(a, b, n) == IF n = 0 THEN 0 ELSE ((a * 10) \div b) * (10 ^ (n - 1)) + Digits((a * 10) % b, b, n - 1)
\* a / b for 0 <= a <= b < 2^27
Fraction(a, b) == IF a = b THEN Unit ELSE Digits(a, b, 7)
Scaled(m, e) == IF e >= 0 THEN m * 2^e ELSE IF e < -30 THEN 0 ELSE m \div 2^(-e)
Fits(m, e) == e <= 0 \/ (e < 27 /\ m <= 2^(27 - e))
RECURSIVE SumQ(_, _)
SumQ(q, k) == IF k > Len(q) THEN 0 ELSE q[k] + SumQ(q, k + 1)
Kinds(T) == { k[1] : k \in DOMAIN T }
\* what each kind weighs, in the largest power of two for which everything together is below 2^27
Weights(T, z) ==
  [k \in Kinds(T) |-> LET D == AsSeq({ x \in DOMAIN T : x[1] = k })
                      IN SumQ([j \in DOMAIN D |-> Scaled(T[D[j]], D[j][2] + z)], 1)]
RECURSIVE Zoom(_, _)
Zoom(T, z) ==
  IF \A k \in DOMAIN T : Fits(T[k] * 8 * Cardinality(DOMAIN T), k[2] + z) THEN z ELSE Zoom(T, z - 1)
Expected ==
  LET T == TLCEval(Table)
      W == TLCEval(Weights(T, Zoom(T, 40)))
      D == AsSeq(Kinds(T))
      all == SumQ([j \in DOMAIN D |-> W[D[j]]], 1)
  IN [k \in Kinds(T) |-> Fraction(W[k], all)]
=============================================================================
