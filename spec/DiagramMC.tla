------------------------------ MODULE DiagramMC ------------------------------
(***************************************************************************)
(* All diagrams the updates of Diagram.tla lead to within small bounds.    *)
(* Every update keeps every invariant, and has a partner that leads back   *)
(* with the reciprocal factor: together with the choices' probabilities    *)
(* (which the recordings are checked for), that is detailed balance.       *)
(* That all momenta differ means that nothing can be cut off (Skeleton).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxK, MaxOrd, LX, NTimes, G3
MCfg == [maxk |-> MaxK, maxord |-> MaxOrd, lb |-> 3, Lx |-> LX, Ly |-> 1, nsub |-> 1, g3 |-> G3,
         orw |-> <<5, 1, -2, 4, 7>>, wsr |-> -6, pr |-> 2, ggr |-> 9, gwr |-> -11, nt |-> 1, ntt |-> 1, gs |-> 0, ws |-> 0]
INSTANCE Diagram WITH Cfg <- MCfg
VARIABLE s
---------------------------------------------------------------------------
Times == { <<t, 0>> : t \in 1..NTimes }
VIds == <<"a", "b", "c", "d", "e", "f", "g", "h">>
GIds == <<"A", "B", "C", "D", "E", "F", "G", "H">>
WIds == <<"w", "x", "y", "z">>
\* the first n names that are free
Free(ids, used, n) == LET f == SelectSeq(ids, LAMBDA x : x \notin used) IN SubSeq(f, 1, n)
H(st) == [ks |-> (-MaxK)..MaxK, ts |-> Times, rs |-> Sites, nv |-> {Free(VIds, DOMAIN st.v, 2)}, ng |-> {Free(GIds, DOMAIN st.g, 2)}, nw |-> {Free(WIds, DOMAIN st.w, 1)[1]}]
AllOps == IF G3 THEN Ops \cup Ops3 ELSE Ops
V(gi, go, d, sp, r, t) == [gi |-> gi, go |-> go, w |-> "w", d |-> d, si |-> sp[1], so |-> sp[2], r |-> r, t |-> t]
First(k, sp, t) ==
  [ord |-> 1, v |-> "a" :> V("B", "A", DI, <<sp[2], sp[1]>>, <<0, 0, 0>>, t) @@ "b" :> V("A", "B", DO, sp, <<0, 0, 0>>, t),
   g |-> "A" :> [i |-> "a", o |-> "b", k |-> k[1]] @@ "B" :> [i |-> "b", o |-> "a", k |-> k[2]],
   w |-> "w" :> [i |-> "a", o |-> "b", k |-> k[3], dl |-> FALSE],
   worm |-> NoWorm, meas |-> "A", sg |-> 1, ins |-> 0, host |-> NONE, u |-> NoExt]
Valid(st) == TopoOK(st) /\ KOK(st) /\ SpinOK(st) /\ SectorOK(st) /\ SignOK(st) /\ MashaOK(st)
Init == s \in { x \in { First(<<1, 0, k>>, <<UP, UP>>, <<1, 0>>) : k \in (-MaxK)..MaxK } : Valid(x) }
Next == \E op \in AllOps : \E x \in Props(op, s, H(s)) : s' = x.t
Spec == Init /\ [][Next]_s
\* Diagrams are told apart up to names, and to a momentum added to all propagators:
\* vertices are visited from the measuring line, along propagators before interactions
RECURSIVE Visit(_, _)
Visit(st, q) ==
  LET seen == { q[k] : k \in DOMAIN q }
      new == { <<k, j>> \in (DOMAIN q) \X {1, 2} : (IF j = 1 THEN GEnd(st, st.v[q[k]].go, DO) ELSE WOther(st, q[k])) \notin seen }
  IN IF seen = DOMAIN st.v THEN q
     ELSE IF new = {} THEN Visit(st, Append(q, CHOOSE x \in (DOMAIN st.v) \ seen : TRUE))
     ELSE LET p == CHOOSE x \in new : \A y \in new : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
              z == q[p[1]]
          IN Visit(st, Append(q, IF p[2] = 1 THEN GEnd(st, st.v[z].go, DO) ELSE WOther(st, z)))
View ==
  LET q == Visit(s, << IF s.meas \in DOMAIN s.g THEN s.g[s.meas].i ELSE s.w[s.meas].i >>)
      Nr(x) == CHOOSE n \in DOMAIN q : q[n] = x
      k0 == s.g[s.v[q[1]].go].k
      Line(l) == IF l = NONE THEN 0 ELSE IF l \in DOMAIN s.g THEN Nr(s.g[l].i) ELSE 10 + Nr(s.w[l].i)
      Of(x) == LET v == s.v[x]
                   w == s.w[v.w]
               IN <<Nr(GEnd(s, v.go, DO)), Nr(WOther(s, x)), v.d, v.si, v.so, v.r, v.t, Sh(s.g[v.go].k - k0), w.k, w.dl>>
  IN <<s.ord, [n \in DOMAIN q |-> Of(q[n])], Line(s.meas), Line(s.host), s.sg, s.ins, s.u,
       IF s.worm.e THEN <<Nr(s.worm.i), Nr(s.worm.m), s.worm.k, s.worm.s>> ELSE << >> >>
---------------------------------------------------------------------------
Topology == TopoOK(s)
Momenta == KOK(s)
Spins == SpinOK(s)
Sectors == SectorOK(s) /\ MashaOK(s)
Signs == SignOK(s)
\* propagators stay on one site
Local == \A x \in DOMAIN s.v : \A y \in Loop(s, x) : s.v[x].r = s.v[y].r
\* at order 0 the diagram left behind is kept: which one does not matter
Same(a, b) == IF a.ord = 0 /\ b.ord = 0
              THEN LET N(st) == [st EXCEPT !.v = [x \in DOMAIN @ |-> [@[x] EXCEPT !.si = 0, !.so = 0, !.r = 0, !.t = 0]]] IN N(a) = N(b)
              ELSE a = b
Balanced(x, y) == LET e == x.e + y.e IN IF e >= 0 THEN x.n * y.n * Pow2(e) = x.d * y.d ELSE x.n * y.n = x.d * y.d * Pow2(-e)
HintsBack(t, st) == [Hints(t, st) EXCEPT !.ts = Times, !.ks = @ \cup {st.worm.k}, !.rs = Sites]
Reciprocal ==
  \A op \in AllOps : \A x \in Props(op, s, H(s)) :
    \E y \in Props(Partner(op), x.t, HintsBack(x.t, s)) : Same(y.t, s) /\ Balanced(x, y)
\* an update's discrete choice and its hints determine where it leads
Injective == \A op \in AllOps \ {"ChangeRLoop", "CreateWorm", "AddInteraction", "AddDeltaInteraction", "ChangeTauOnVertex", "ChangeDeltaToContinuous", "JumpBackToOrder1", "JumpToGGGammaG", "JumpToWWGammaW"} :
               \A x, y \in Props(op, s, H(s)) : x.a = y.a => x = y
---------------------------------------------------------------------------
(* What can be cut off *)
Links(st, cutg, cutw) ==
  { {st.g[l].i, st.g[l].o} : l \in (DOMAIN st.g) \ cutg } \cup { {st.w[l].i, st.w[l].o} : l \in (DOMAIN st.w) \ cutw }
RECURSIVE Reach(_, _)
Reach(E, S) == LET T == S \cup UNION { e \in E : e \cap S # {} } IN IF T = S THEN S ELSE Reach(E, T)
Connected(st, cutg, cutw) == LET x == CHOOSE y \in DOMAIN st.v : TRUE IN Reach(Links(st, cutg, cutw), {x}) = DOMAIN st.v
Skeleton ==
  ~s.worm.e /\ s.ord > 0 =>
    /\ Connected(s, {}, {})
    /\ \A l, m \in DOMAIN s.g : l # m => Connected(s, {l, m}, {}) \/ s.ord = 1 
    /\ \A l \in DOMAIN s.w : Connected(s, {}, {l})
    /\ \A l, m \in DOMAIN s.w : l # m => Connected(s, {}, {l, m})
=============================================================================
