------------------------------- MODULE Diagram -------------------------------
(***************************************************************************)
(* The worm-algorithm Markov chain over skeleton Feynman diagrams: the     *)
(* state of a diagram, and every Monte Carlo update as a relation between  *)
(* a diagram and the diagram it proposes, together with the exact          *)
(* acceptance ratio.  One operator per update of mc::Markov.               *)
(*                                                                         *)
(* Weights are NOT part of the state: the weight of a diagram is *defined* *)
(* by its structure (Weight(s)), so the incremental bookkeeping of the     *)
(* code is judged against recomputation from scratch.  Weights are numbers *)
(* 2^e * i^p, written <<e, p>>; the harness fills the weight tables of the *)
(* real code with such numbers, on which double arithmetic is exact.       *)
(*                                                                         *)
(* A time is <<h, l>> = (h*2^19 + l)/2^35 * Beta; Beta = 2^Cfg.lb.         *)
(* Directions: DI (IN) = 0, DO (OUT) = 1.  Spins: DOWN = 0, UP = 1.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Cfg
\* [maxk, maxord, lb, Lx, Ly, nsub, nt, ntt, g3,
\*  orw (exponents, orw[n+1] for order n), wsr, pr, ggr, gwr (exponents),
\*  GT, WT, DT, GGT, WWT (flat tables of weight codes)]

DI == 0
DO == 1
DOWN == 0
UP == 1
NONE == "none"
Inv(d) == 1 - d
Sgn(d) == IF d = DI THEN 1 ELSE -1
Flip(x) == 1 - x
Abs(x) == IF x < 0 THEN -x ELSE x
NoWorm == [e |-> FALSE, i |-> NONE, m |-> NONE, k |-> 0, s |-> 0]
NoExt == [r |-> <<0,0,0>>, t |-> <<0,0>>, s |-> 0]

---------------------------------------------------------------------------
(* Momentum: the cyclic group of size 2*maxk+1, symmetric representatives *)
NK == 2 * Cfg.maxk + 1
Sh(k) == ((k + Cfg.maxk) % NK) - Cfg.maxk

---------------------------------------------------------------------------
(* Space and time *)
Sites == { <<b, x, y>> : b \in 0..(Cfg.nsub-1), x \in 0..(Cfg.Lx-1), y \in 0..(Cfg.Ly-1) }
NSites == Cfg.nsub * Cfg.Lx * Cfg.Ly
Vol == Cfg.Lx * Cfg.Ly
Coord(a, b) == (((b[2] - a[2]) % Cfg.Lx) * Cfg.Ly) + ((b[3] - a[3]) % Cfg.Ly)
TLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* (b - a) modulo one period
TDiff(a, b) == LET l0 == b[2] - a[2]
                   h0 == b[1] - a[1]
                   l == IF l0 < 0 THEN l0 + 524288 ELSE l0
                   h == IF l0 < 0 THEN h0 - 1 ELSE h0
               IN <<IF h < 0 THEN h + 65536 ELSE h, l>>
Bin(d, n) == (d[1] * n + ((d[2] * n) \div 524288)) \div 65536
TauBin(a, b, n) == Bin(TDiff(a, b), n)

---------------------------------------------------------------------------
(* Weights *)
ZERO == <<-9999, 0>>
ONE == <<0, 0>>
IsZero(w) == w[1] = -9999
Mul(a, b) == IF IsZero(a) \/ IsZero(b) THEN ZERO ELSE <<a[1] + b[1], (a[2] + b[2]) % 4>>
Neg(a) == IF IsZero(a) THEN a ELSE <<a[1], (a[2] + 2) % 4>>
Conj(a) == IF IsZero(a) THEN a ELSE <<a[1], (4 - a[2]) % 4>>
\* table code: -1 is zero, else (e+8)*4+p, where the exponent of the number is e plus the scale of the table
Dec(c, sc) == IF c < 0 THEN ZERO ELSE <<(c \div 4) - 8 + sc, c % 4>>

GIdx(si, ri, so, ro, ti, to) ==
  ((((si * Cfg.nsub + ri[1]) * 2 + so) * Cfg.nsub + ro[1]) * Vol + Coord(ri, ro)) * Cfg.nt
    + TauBin(ti, to, Cfg.nt)
GPlain(ri, ro, ti, to, si, so) ==
  LET w == Dec(Cfg.GT[GIdx(si, ri, so, ro, ti, to) + 1], Cfg.gs)
  IN IF TLess(ti, to) THEN w ELSE Neg(w)
\* propagator with a three-point insertion at external point u
GIns(ri, ro, ti, to, si, u) ==
  LET n == Cfg.nt
      i1 == TauBin(u.t, to, n)
      i2 == TauBin(u.t, ti, n)
      w0 == Dec(Cfg.GGT[((si * Vol + Coord(ri, u.r)) * n + i1) * n + i2 + 1], Cfg.gs)
      w1 == IF TLess(to, u.t) THEN Neg(w0) ELSE w0
  IN IF TLess(ti, u.t) THEN Neg(w1) ELSE w1
S4(p) == p[1] * 2 + p[2]
WIdx0(pi, ri, po, ro) == (((S4(pi) * Cfg.nsub + ri[1]) * 4 + S4(po)) * Cfg.nsub + ro[1]) * Vol + Coord(ri, ro)
WPlain(ri, ro, ti, to, pi, po) ==
  Dec(Cfg.WT[WIdx0(pi, ri, po, ro) * Cfg.nt + TauBin(ti, to, Cfg.nt) + 1], Cfg.ws)
WDelta(ri, ro, pi, po) == Dec(Cfg.DT[WIdx0(pi, ri, po, ro) + 1], Cfg.ws)
\* spin class of an interaction line with an insertion, read OUT end first
WSpin(po, pi) ==
  CASE po = <<1,1>> /\ pi = <<1,1>> -> 0
    [] po = <<0,0>> /\ pi = <<0,0>> -> 1
    [] po = <<1,1>> /\ pi = <<0,0>> -> 2
    [] po = <<0,0>> /\ pi = <<1,1>> -> 3
    [] po = <<1,0>> /\ pi = <<0,1>> -> 4
    [] po = <<0,1>> /\ pi = <<1,0>> -> 5
    [] OTHER -> 6
WIns(ri, ro, ti, to, pi, po, u) ==
  LET n == Cfg.ntt
      ti1 == TauBin(u.t, to, n)
      ti2 == TauBin(u.t, ti, n)
      tx == ti1 * n + ti2
      \* a flagged pair of times stands for the mirrored one: both ends change places
      cx == IF Cfg.TFlag[tx + 1] # 0 THEN Coord(ri, u.r) * Vol + Coord(ro, u.r) ELSE Coord(ro, u.r) * Vol + Coord(ri, u.r)
      sp == WSpin(po, pi)
      half == Cfg.RSize * Cfg.TauSize
      ix == Cfg.RSq[cx + 1] * Cfg.TauSize + Cfg.TSq[tx + 1] + (IF sp >= 4 THEN half ELSE 0)
      w0 == Dec(Cfg.WWT[ix + 1], Cfg.ws)
      w1 == IF Cfg.TFlag[tx + 1] # 0 THEN Neg(Conj(w0)) ELSE w0
  IN CASE sp \in {0, 1, 5, 6} -> w1
       [] sp \in {2, 3} -> Neg(w1)
       [] OTHER -> Neg(Conj(w1))

---------------------------------------------------------------------------
(* The state of a diagram                                                  *)
(*  ord, v: id -> [gi, go, w, d, si, so, r, t], g: id -> [i, o, k],        *)
(*  w: id -> [i, o, k, dl], worm, meas: id of the measuring line,          *)
(*  sg: fermion-loop sign, ins: 0/1/2, host: id of the line with the       *)
(*  insertion, u: external point [r, t, s].                                *)
(* At order 0 the components of the order-1 diagram that was left are kept *)
(* (they determine which order-1 diagrams can be re-entered).              *)

NG(s, x, d) == IF d = DI THEN s.v[x].gi ELSE s.v[x].go
GEnd(s, l, d) == IF d = DI THEN s.g[l].i ELSE s.g[l].o
WEnd(s, l, d) == IF d = DI THEN s.w[l].i ELSE s.w[l].o
SpinAt(s, x, d) == IF d = DI THEN s.v[x].si ELSE s.v[x].so
SPair(s, x) == <<s.v[x].si, s.v[x].so>>
GSpin(s, l) == s.v[s.g[l].i].so
WOther(s, x) == WEnd(s, s.v[x].w, Inv(s.v[x].d))
IsWormV(s, x) == s.worm.e /\ (x = s.worm.i \/ x = s.worm.m)
IsWormW(s, l) == s.worm.e /\ (s.v[s.worm.i].w = l \/ s.v[s.worm.m].w = l)
GUsed(s) == { s.g[l].k : l \in DOMAIN s.g }
WUsed(s) == { Abs(s.w[l].k) : l \in DOMAIN s.w }
GBlocked(s, k) == k \in GUsed(s)
WBlocked(s, k) == k = 0 \/ Abs(k) \in WUsed(s)

GLineW(s, l) ==
  LET a == s.v[s.g[l].i]
      b == s.v[s.g[l].o]
  IN IF s.meas = l THEN ONE
     ELSE IF s.ins = 1 /\ s.host = l THEN GIns(a.r, b.r, a.t, b.t, a.so, s.u)
     ELSE GPlain(a.r, b.r, a.t, b.t, a.so, b.si)
WLineW(s, l) ==
  LET x == s.w[l].i
      y == s.w[l].o
      a == s.v[x]
      b == s.v[y]
      pa == IF IsWormW(s, l) THEN <<UP, UP>> ELSE SPair(s, x)
      pb == IF IsWormW(s, l) THEN <<UP, UP>> ELSE SPair(s, y)
  IN IF s.w[l].dl THEN WDelta(a.r, b.r, pa, pb)
     ELSE IF s.meas = l THEN ONE
     ELSE IF s.ins = 2 /\ s.host = l THEN WIns(a.r, b.r, a.t, b.t, pa, pb, s.u)
     ELSE WPlain(a.r, b.r, a.t, b.t, pa, pb)

RECURSIVE Prod(_, _)
Prod(f, S) == IF S = {} THEN ONE
              ELSE LET x == CHOOSE y \in S : TRUE IN Mul(f[x], Prod(f, S \ {x}))
\* the normalization weight of the order-0 sector: Norm = number of sites
NormE == CHOOSE n \in 0..12 : 2^n = NSites
Weight(s) ==
  IF s.ord = 0 THEN <<NormE, 0>>
  ELSE LET gp == Prod([l \in DOMAIN s.g |-> GLineW(s, l)], DOMAIN s.g)
           wp == Prod([l \in DOMAIN s.w |-> WLineW(s, l)], DOMAIN s.w)
           x == Mul(gp, wp)
           y == IF s.ord % 2 = 0 THEN x ELSE Neg(x)
       IN IF s.sg = 1 THEN y ELSE Neg(y)

---------------------------------------------------------------------------
(* Updates.  H is a record of hints that bound the continuous choices:     *)
(*  ks (momenta), ts (times), nv (pairs of fresh vertex ids), ng (pairs of *)
(*  fresh propagator ids), nw (fresh interaction ids).                     *)
(* Each operator returns the set of proposals [t, n, d, e, a]: the         *)
(* proposed diagram, the rational factor n/d * 2^e which multiplies        *)
(* |Weight(t)/Weight(s)| in the acceptance ratio, and the discrete choice  *)
(* a that was made.                                                        *)

P(t, n, d, e, a) == [t |-> t, n |-> n, d |-> d, e |-> e, a |-> a]

CanNotStart(ds, si, so) == \/ ds = 1 /\ si = DOWN /\ so = UP
                           \/ ds = -1 /\ si = UP /\ so = DOWN
CanNotMove(ds, sp, dir) == IF ds = 1 THEN (dir = DI /\ sp = DOWN) \/ (dir = DO /\ sp = UP)
                                     ELSE (dir = DI /\ sp = UP) \/ (dir = DO /\ sp = DOWN)

CreateWorm(s, H) ==
  IF s.ord = 0 \/ s.worm.e THEN {}
  ELSE { LET L == s.w[c[1]]
         IN P([s EXCEPT !.worm = [e |-> TRUE, i |-> L.i, m |-> L.o, k |-> c[3], s |-> c[2]],
                        !.w[c[1]].k = Sh(L.k - c[3])],
              2 * s.ord, 1, Cfg.wsr, <<c[1], c[2]>>)
         : c \in { q \in (DOMAIN s.w) \X {-1, 1} \X H.ks :
              LET L == s.w[q[1]]
                  a == s.v[L.i]
                  b == s.v[L.o]
              IN /\ ~WBlocked(s, Sh(L.k - q[3]))
                 /\ ~(CanNotStart(q[2], a.si, a.so) /\ CanNotStart(-q[2], b.si, b.so)) } }

DeleteWorm(s, H) ==
  IF s.ord = 0 \/ ~s.worm.e THEN {}
  ELSE LET I == s.worm.i
           l == s.v[I].w
           k == Sh(s.w[l].k + Sgn(s.v[I].d) * s.worm.k)
       IN IF s.v[s.worm.m].w # l \/ WBlocked(s, k) THEN {}
          ELSE { P([s EXCEPT !.worm = NoWorm, !.w[l].k = k], 1, 2 * s.ord, -Cfg.wsr, <<>>) }

MoveWormOnG(s, H) ==
  IF s.ord = 0 \/ ~s.worm.e THEN {}
  ELSE { LET I == s.worm.i
             l == NG(s, I, dir)
             y == GEnd(s, l, dir)
             k == Sh(s.g[l].k - Sgn(dir) * s.worm.k)
             t1 == [s EXCEPT !.g[l].k = k, !.worm.i = y]
             t2 == IF dir = DI THEN [t1 EXCEPT !.v[I].si = Flip(@)] ELSE [t1 EXCEPT !.v[I].so = Flip(@)]
             t3 == IF dir = DI THEN [t2 EXCEPT !.v[y].so = Flip(@)] ELSE [t2 EXCEPT !.v[y].si = Flip(@)]
         IN P(t3, 1, 1, 0, <<dir>>)
         : dir \in { d \in {DI, DO} :
              LET l == NG(s, s.worm.i, d)
                  y == GEnd(s, l, d)
              IN /\ y # s.worm.i /\ y # s.worm.m
                 /\ ~CanNotMove(s.worm.s, GSpin(s, l), d)
                 /\ ~GBlocked(s, Sh(s.g[l].k - Sgn(d) * s.worm.k)) } }

MoveWormOnW(s, H) ==
  IF s.ord = 0 \/ ~s.worm.e THEN {}
  ELSE LET I == s.worm.i
           l == s.v[I].w
           y == WOther(s, I)
           k == Sh(s.w[l].k + Sgn(s.v[I].d) * s.worm.k)
       IN IF y = s.worm.m \/ y = I \/ WBlocked(s, k) THEN {}
          ELSE { P([s EXCEPT !.w[l].k = k, !.worm.i = y], 1, 1, 0, <<>>) }

SetGEnd(s, l, d, x) == IF d = DI THEN [s EXCEPT !.g[l].i = x] ELSE [s EXCEPT !.g[l].o = x]
SetNG(s, x, d, l) == IF d = DI THEN [s EXCEPT !.v[x].gi = l] ELSE [s EXCEPT !.v[x].go = l]

Reconnect(s, H) ==
  IF s.ord = 0 \/ ~s.worm.e THEN {}
  ELSE IF s.v[s.worm.i].r # s.v[s.worm.m].r THEN {}
  ELSE { LET I == s.worm.i
             M == s.worm.m
             a == NG(s, I, dir)
             b == NG(s, M, dir)
             k == Sh(s.worm.k + Sgn(dir) * (s.g[b].k - s.g[a].k))
             t1 == SetNG(SetNG(s, M, dir, a), I, dir, b)
             t2 == SetGEnd(SetGEnd(t1, a, Inv(dir), M), b, Inv(dir), I)
         IN P([t2 EXCEPT !.worm.k = k, !.sg = -@], 1, 1, 0, <<dir>>)
         : dir \in { d \in {DI, DO} : GSpin(s, NG(s, s.worm.i, d)) = GSpin(s, NG(s, s.worm.m, d)) } }

\* I---C ==> I---A---C  and  M---D ==> M---B---D,  A and B joined by a new line
AddLine(s, H, delta) ==
  IF ~s.worm.e \/ s.ord = 0 \/ s.ord >= Cfg.maxord THEN {}
  ELSE { LET dir == c.dir
             dw == c.dw
             kw == c.k
             I == s.worm.i
             M == s.worm.m
             gC == NG(s, I, dir)
             gD == NG(s, M, dir)
             C == GEnd(s, gC, dir)
             D == GEnd(s, gD, dir)
             A == c.nv[1]
             B == c.nv[2]
             gA == c.ng[1]
             gB == c.ng[2]
             spA == GSpin(s, gC)
             spB == GSpin(s, gD)
             VA == [gi |-> IF dir = DI THEN gC ELSE gA, go |-> IF dir = DI THEN gA ELSE gC,
                    w |-> c.nw, d |-> dw, si |-> spA, so |-> spA, r |-> s.v[C].r, t |-> c.ta]
             VB == [gi |-> IF dir = DI THEN gD ELSE gB, go |-> IF dir = DI THEN gB ELSE gD,
                    w |-> c.nw, d |-> Inv(dw), si |-> spB, so |-> spB, r |-> s.v[D].r,
                    t |-> IF delta THEN c.ta ELSE c.tb]
             kA == Sh(s.g[gC].k - Sgn(dir) * Sgn(dw) * kw)
             kB == Sh(s.g[gD].k + Sgn(dir) * Sgn(dw) * kw)
             GA == IF dir = DI THEN [i |-> A, o |-> I, k |-> kA] ELSE [i |-> I, o |-> A, k |-> kA]
             GB == IF dir = DI THEN [i |-> B, o |-> M, k |-> kB] ELSE [i |-> M, o |-> B, k |-> kB]
             W == IF dw = DI THEN [i |-> A, o |-> B, k |-> kw, dl |-> delta]
                             ELSE [i |-> B, o |-> A, k |-> kw, dl |-> delta]
             t1 == SetNG(SetNG(s, I, dir, gA), M, dir, gB)
             t2 == SetGEnd(SetGEnd(t1, gC, Inv(dir), A), gD, Inv(dir), B)
             t3 == [t2 EXCEPT !.v = (A :> VA) @@ (B :> VB) @@ @,
                              !.g = (gA :> GA) @@ (gB :> GB) @@ @,
                              !.w = (c.nw :> W) @@ @,
                              !.worm.k = Sh(@ - Sgn(dw) * kw),
                              !.ord = @ + 1]
         IN P(t3, 1, 1, Cfg.orw[s.ord + 2] - Cfg.orw[s.ord + 1] + (IF delta THEN 1 ELSE 2) * Cfg.lb,
              <<dir, dw>>)
         : c \in { q \in [dir : {DI, DO}, dw : {DI, DO}, k : H.ks, ta : H.ts,
                          tb : IF delta THEN {<<0, 0>>} ELSE H.ts, nv : H.nv, ng : H.ng, nw : H.nw] :
              LET kA == Sh(s.g[NG(s, s.worm.i, q.dir)].k - Sgn(q.dir) * Sgn(q.dw) * q.k)
                  kB == Sh(s.g[NG(s, s.worm.m, q.dir)].k + Sgn(q.dir) * Sgn(q.dw) * q.k)
              IN /\ ~WBlocked(s, q.k)
                 /\ ~GBlocked(s, kA) /\ ~GBlocked(s, kB) /\ kA # kB } }

Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]

DelLine(s, H, delta) ==
  IF ~s.worm.e \/ s.ord <= 1 THEN {}
  ELSE { LET I == s.worm.i
             M == s.worm.m
             gA == NG(s, I, dir)
             gB == NG(s, M, dir)
             A == GEnd(s, gA, dir)
             B == GEnd(s, gB, dir)
             l == s.v[A].w
             gC == NG(s, A, dir)
             gD == NG(s, B, dir)
             t1 == SetGEnd(SetGEnd(s, gC, Inv(dir), I), gD, Inv(dir), M)
             t2 == SetNG(SetNG(t1, I, dir, gC), M, dir, gD)
         IN P([t2 EXCEPT !.v = Drop(@, {A, B}), !.g = Drop(@, {gA, gB}), !.w = Drop(@, {l}),
                         !.worm.k = Sh(@ + Sgn(s.v[A].d) * s.w[l].k), !.ord = @ - 1],
              1, 1, Cfg.orw[s.ord] - Cfg.orw[s.ord + 1] - (IF delta THEN 1 ELSE 2) * Cfg.lb, <<dir>>)
         : dir \in { d \in {DI, DO} :
              LET gA == NG(s, s.worm.i, d)
                  gB == NG(s, s.worm.m, d)
                  A == GEnd(s, gA, d)
                  B == GEnd(s, gB, d)
                  l == s.v[A].w
              IN /\ s.meas \notin {gA, gB, l} /\ s.host \notin {gA, gB, l}
                 /\ s.v[A].si = s.v[A].so /\ s.v[B].si = s.v[B].so
                 /\ l = s.v[B].w /\ ~IsWormW(s, l) /\ s.w[l].dl = delta
                 /\ s.v[A].r = s.v[GEnd(s, NG(s, A, d), d)].r
                 /\ s.v[B].r = s.v[GEnd(s, NG(s, B, d), d)].r } }

ChangeTau(s, H) ==
  IF s.ord = 0 \/ s.worm.e THEN {}
  ELSE { P([s EXCEPT !.v[c[1]].t = c[2]], 1, 1, 0, <<c[1]>>)
         : c \in { x \in DOMAIN s.v : ~s.w[s.v[x].w].dl } \X H.ts }

RECURSIVE LoopFrom(_, _, _)
LoopFrom(s, x, acc) == IF x \in acc THEN acc ELSE LoopFrom(s, GEnd(s, s.v[x].go, DO), acc \cup {x})
Loop(s, x) == LoopFrom(s, x, {})

ChangeRLoop(s, H) ==
  IF s.ord = 0 \/ s.worm.e THEN {}
  ELSE { LET lp == Loop(s, c[1])
         IN P([s EXCEPT !.v = [y \in DOMAIN @ |-> IF y \in lp THEN [@[y] EXCEPT !.r = c[2]] ELSE @[y]]],
              1, 1, 0, c)
         : c \in { x \in DOMAIN s.v : \A y \in Loop(s, x) : s.v[y].r = s.v[x].r } \X H.rs }

MeasureG2W(s, H) ==
  IF s.ord = 0 \/ s.worm.e \/ s.ins # 0 \/ s.meas \notin DOMAIN s.g THEN {}
  ELSE { P([s EXCEPT !.meas = l], 1, 2, Cfg.pr, <<l>>) : l \in { x \in DOMAIN s.w : ~s.w[x].dl } }
MeasureW2G(s, H) ==
  IF s.ord = 0 \/ s.worm.e \/ s.ins # 0 \/ s.meas \notin DOMAIN s.w THEN {}
  ELSE { P([s EXCEPT !.meas = l], 2, 1, -Cfg.pr, <<l>>) : l \in DOMAIN s.g }

DeltaToCont(s, H) ==
  IF s.ord < 2 \/ s.worm.e THEN {}
  ELSE { P([s EXCEPT !.w[c[1]].dl = FALSE, !.v[s.w[c[1]].o].t = c[2]], 1, 1, Cfg.lb, <<c[1]>>)
         : c \in { l \in DOMAIN s.w : s.w[l].dl /\ s.meas # l /\ s.host # l } \X H.ts }
ContToDelta(s, H) ==
  IF s.ord < 2 \/ s.worm.e THEN {}
  ELSE { P([s EXCEPT !.w[l].dl = TRUE, !.v[s.w[l].o].t = s.v[s.w[l].i].t], 1, 1, -Cfg.lb, <<l>>)
         : l \in { x \in DOMAIN s.w : ~s.w[x].dl /\ s.meas # x /\ s.host # x } }

\* order 1 and back: only diagrams whose two vertices sit on one site, and
\* whose line is not instantaneous, have an order-0 partner
JumpTo0(s, H) ==
  IF s.ord # 1 \/ s.worm.e \/ s.ins # 0 THEN {}
  ELSE IF Cardinality({ s.v[x].r : x \in DOMAIN s.v }) # 1 THEN {}
  ELSE IF \E l \in DOMAIN s.w : s.w[l].dl THEN {}
  ELSE { P([s EXCEPT !.ord = 0], 1, 4 * NSites, Cfg.orw[1] - Cfg.orw[2] - 2 * Cfg.lb, <<>>) }
JumpBackTo1(s, H) ==
  IF s.ord # 0 \/ s.worm.e \/ s.ins # 0 THEN {}
  ELSE LET l == CHOOSE x \in DOMAIN s.w : TRUE
           A == s.w[l].i
           B == s.w[l].o
       IN { P([s EXCEPT !.ord = 1,
                        !.v[A].r = c.r, !.v[B].r = c.r, !.v[A].t = c.ta, !.v[B].t = c.tb,
                        !.v[A].si = c.s2, !.v[A].so = c.s1, !.v[B].si = c.s1, !.v[B].so = c.s2],
              4 * NSites, 1, Cfg.orw[2] - Cfg.orw[1] + 2 * Cfg.lb, <<c.r, c.s1, c.s2>>)
            : c \in [r : H.rs, ta : H.ts, tb : H.ts, s1 : {DOWN, UP}, s2 : {DOWN, UP}] }

InsRew(s) == IF s.meas \in DOMAIN s.g THEN Cfg.ggr ELSE Cfg.gwr
InsertG(s, H) ==
  IF ~Cfg.g3 \/ s.ord = 0 \/ s.worm.e \/ s.ins # 0 THEN {}
  ELSE { P([s EXCEPT !.ins = 1, !.host = c[1],
                     !.u = [r |-> s.v[s.g[c[1]].i].r, t |-> c[2], s |-> UP]],
           2 * s.ord, 1, Cfg.lb + InsRew(s), <<c[1]>>)
         : c \in { l \in DOMAIN s.g : s.meas # l } \X H.ts }
RemoveG(s, H) ==
  IF s.ord = 0 \/ s.worm.e \/ s.ins # 1 THEN {}
  ELSE IF \/ s.v[s.g[s.host].i].r # s.v[s.g[s.host].o].r
          \/ s.v[s.g[s.host].i].r # s.u.r \/ s.u.s # UP THEN {}
  ELSE { P([s EXCEPT !.ins = 0, !.host = NONE, !.u = NoExt], 1, 2 * s.ord, -Cfg.lb - InsRew(s), <<>>) }
InsertW(s, H) ==
  IF ~Cfg.g3 \/ s.ord = 0 \/ s.worm.e \/ s.ins # 0 THEN {}
  ELSE { P([s EXCEPT !.ins = 2, !.host = c[1], !.u = [r |-> c[3], t |-> c[2], s |-> UP]],
           s.ord * NSites, 1, Cfg.lb + InsRew(s), <<c[1], c[3]>>)
         : c \in { l \in DOMAIN s.w : s.meas # l /\ ~s.w[l].dl } \X H.ts \X H.rs }
RemoveW(s, H) ==
  IF s.ord = 0 \/ s.worm.e \/ s.ins # 2 THEN {}
  ELSE { P([s EXCEPT !.ins = 0, !.host = NONE, !.u = NoExt],
           1, s.ord * NSites, -Cfg.lb - InsRew(s), <<>>) }

Ops == { "CreateWorm", "DeleteWorm", "MoveWormOnG", "MoveWormOnW", "Reconnect",
         "AddInteraction", "DeleteInteraction", "AddDeltaInteraction", "DeleteDeltaInteraction",
         "ChangeTauOnVertex", "ChangeRLoop", "ChangeMeasureFromGToW", "ChangeMeasureFromWToG",
         "ChangeDeltaToContinuous", "ChangeContinuousToDelta", "JumpToOrder0", "JumpBackToOrder1" }
Ops3 == { "JumpToGGGammaG", "JumpFromGGGammaGToG", "JumpToWWGammaW", "JumpFromWWGammaWToW" }

Props(op, s, H) ==
  CASE op = "CreateWorm" -> CreateWorm(s, H)
    [] op = "DeleteWorm" -> DeleteWorm(s, H)
    [] op = "MoveWormOnG" -> MoveWormOnG(s, H)
    [] op = "MoveWormOnW" -> MoveWormOnW(s, H)
    [] op = "Reconnect" -> Reconnect(s, H)
    [] op = "AddInteraction" -> AddLine(s, H, FALSE)
    [] op = "DeleteInteraction" -> DelLine(s, H, FALSE)
    [] op = "AddDeltaInteraction" -> AddLine(s, H, TRUE)
    [] op = "DeleteDeltaInteraction" -> DelLine(s, H, TRUE)
    [] op = "ChangeTauOnVertex" -> ChangeTau(s, H)
    [] op = "ChangeRLoop" -> ChangeRLoop(s, H)
    [] op = "ChangeMeasureFromGToW" -> MeasureG2W(s, H)
    [] op = "ChangeMeasureFromWToG" -> MeasureW2G(s, H)
    [] op = "ChangeDeltaToContinuous" -> DeltaToCont(s, H)
    [] op = "ChangeContinuousToDelta" -> ContToDelta(s, H)
    [] op = "JumpToOrder0" -> JumpTo0(s, H)
    [] op = "JumpBackToOrder1" -> JumpBackTo1(s, H)
    [] op = "JumpToGGGammaG" -> InsertG(s, H)
    [] op = "JumpFromGGGammaGToG" -> RemoveG(s, H)
    [] op = "JumpToWWGammaW" -> InsertW(s, H)
    [] op = "JumpFromWWGammaWToW" -> RemoveW(s, H)

Partner(op) ==
  CASE op = "CreateWorm" -> "DeleteWorm" [] op = "DeleteWorm" -> "CreateWorm"
    [] op = "AddInteraction" -> "DeleteInteraction" [] op = "DeleteInteraction" -> "AddInteraction"
    [] op = "AddDeltaInteraction" -> "DeleteDeltaInteraction" [] op = "DeleteDeltaInteraction" -> "AddDeltaInteraction"
    [] op = "ChangeMeasureFromGToW" -> "ChangeMeasureFromWToG" [] op = "ChangeMeasureFromWToG" -> "ChangeMeasureFromGToW"
    [] op = "ChangeDeltaToContinuous" -> "ChangeContinuousToDelta" [] op = "ChangeContinuousToDelta" -> "ChangeDeltaToContinuous"
    [] op = "JumpToOrder0" -> "JumpBackToOrder1" [] op = "JumpBackToOrder1" -> "JumpToOrder0"
    [] op = "JumpToGGGammaG" -> "JumpFromGGGammaGToG" [] op = "JumpFromGGGammaGToG" -> "JumpToGGGammaG"
    [] op = "JumpToWWGammaW" -> "JumpFromWWGammaWToW" [] op = "JumpFromWWGammaWToW" -> "JumpToWWGammaW"
    [] OTHER -> op

---------------------------------------------------------------------------
(* Hints taken from a concrete successor t of s *)
Fresh2(S) == IF Cardinality(S) # 2 THEN {} ELSE { p \in S \X S : p[1] # p[2] }
Hints(s, t) ==
  [ ks |-> { t.worm.k } \cup { t.w[l].k : l \in (DOMAIN t.w) \ (DOMAIN s.w) },
    ts |-> { t.v[x].t : x \in DOMAIN t.v } \cup { t.u.t },
    rs |-> { t.v[x].r : x \in DOMAIN t.v } \cup { t.u.r },
    nv |-> Fresh2((DOMAIN t.v) \ (DOMAIN s.v)),
    ng |-> Fresh2((DOMAIN t.g) \ (DOMAIN s.g)),
    nw |-> (DOMAIN t.w) \ (DOMAIN s.w) ]
\* narrower time hints, for updates that pick times: only the times that changed
TimeHints(op, s, t) ==
  CASE op \in {"AddInteraction", "AddDeltaInteraction"} -> { t.v[x].t : x \in (DOMAIN t.v) \ (DOMAIN s.v) }
    [] op \in {"JumpToGGGammaG", "JumpToWWGammaW"} -> { t.u.t }
    [] OTHER -> LET ch == { t.v[x].t : x \in { y \in (DOMAIN t.v) \cap (DOMAIN s.v) : t.v[y].t # s.v[y].t } }
                IN IF ch = {} THEN { t.v[x].t : x \in DOMAIN t.v } ELSE ch
HintsFor(op, s, t) == [Hints(s, t) EXCEPT !.ts = TimeHints(op, s, t)]

\* proposals of op from s that lead to t
Leads(op, s, t) == { x \in Props(op, s, HintsFor(op, s, t)) : x.t = t }

\* acceptance ratio of a proposal, as [n, d, e]; undefined when weights vanish
RatioE(s, x) == x.e + Weight(x.t)[1] - Weight(s)[1]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* min(1, n/d 2^e) in units of 2^-20, rounded
Thr(n, d, e) ==
  IF e >= 8 THEN 1048576
  ELSE IF e >= 0 /\ n * Pow2(e) >= d THEN 1048576
  ELSE IF e >= -20 THEN LET q == (n * Pow2(20 + e)) \div d IN IF q > 1048576 THEN 1048576 ELSE q
  ELSE IF e < -30 THEN 0 ELSE n \div (d * Pow2(-20 - e))
AcceptThr(s, x) == IF IsZero(Weight(x.t)) THEN 0 ELSE Thr(x.n, x.d, RatioE(s, x))

---------------------------------------------------------------------------
(* Invariants of reachable diagrams *)
TopoOK(s) ==
  LET N == IF s.ord = 0 THEN 1 ELSE s.ord
  IN /\ s.ord \in 0..Cfg.maxord
     /\ Cardinality(DOMAIN s.v) = 2 * N /\ Cardinality(DOMAIN s.g) = 2 * N /\ Cardinality(DOMAIN s.w) = N
     /\ \A l \in DOMAIN s.g : /\ s.g[l].i \in DOMAIN s.v /\ s.g[l].o \in DOMAIN s.v
                              /\ s.v[s.g[l].i].go = l /\ s.v[s.g[l].o].gi = l
     /\ \A l \in DOMAIN s.w : /\ s.w[l].i \in DOMAIN s.v /\ s.w[l].o \in DOMAIN s.v
                              /\ s.w[l].i # s.w[l].o
                              /\ s.v[s.w[l].i].w = l /\ s.v[s.w[l].i].d = DI
                              /\ s.v[s.w[l].o].w = l /\ s.v[s.w[l].o].d = DO
     /\ \A x \in DOMAIN s.v : /\ s.v[x].gi \in DOMAIN s.g /\ s.g[s.v[x].gi].o = x
                              /\ s.v[x].go \in DOMAIN s.g /\ s.g[s.v[x].go].i = x
                              /\ s.v[x].w \in DOMAIN s.w /\ WEnd(s, s.v[x].w, s.v[x].d) = x

KBalance(s, x) ==
  Sh(s.g[s.v[x].gi].k - s.g[s.v[x].go].k
     - Sgn(s.v[x].d) * s.w[s.v[x].w].k
     - (IF s.worm.e /\ x = s.worm.i THEN s.worm.k ELSE 0)
     + (IF s.worm.e /\ x = s.worm.m THEN s.worm.k ELSE 0))
InRange(k) == k >= -Cfg.maxk /\ k <= Cfg.maxk
KOK(s) ==
  /\ \A l \in DOMAIN s.g : InRange(s.g[l].k)
  /\ \A l \in DOMAIN s.w : InRange(s.w[l].k) /\ s.w[l].k # 0
  /\ InRange(s.worm.k)
  /\ Cardinality(GUsed(s)) = Cardinality(DOMAIN s.g)
  /\ Cardinality(WUsed(s)) = Cardinality(DOMAIN s.w)
  /\ \A x \in DOMAIN s.v : KBalance(s, x) = 0

SpinOK(s) == \A l \in DOMAIN s.g : s.v[s.g[l].i].so = s.v[s.g[l].o].si
SectorOK(s) ==
  /\ s.meas \in (DOMAIN s.g) \cup (DOMAIN s.w)
  /\ \A l \in DOMAIN s.w : s.w[l].dl => s.meas # l /\ s.v[s.w[l].i].t = s.v[s.w[l].o].t
  /\ s.worm.e => /\ s.ord > 0 /\ s.worm.i \in DOMAIN s.v /\ s.worm.m \in DOMAIN s.v
                 /\ s.worm.i # s.worm.m /\ s.worm.s \in {-1, 1}
  /\ s.ins \in {0, 1, 2}
  /\ s.ins = 0 <=> s.host = NONE
  /\ s.ins = 1 => s.host \in DOMAIN s.g /\ s.meas # s.host /\ s.ord > 0
  /\ s.ins = 2 => s.host \in DOMAIN s.w /\ s.meas # s.host /\ s.ord > 0 /\ ~s.w[s.host].dl
RECURSIVE NLoops(_, _)
NLoops(s, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN 1 + NLoops(s, S \ Loop(s, x))
\* one more fermion loop, one more sign; the reference diagram has one loop and sign +1
SignOK(s) == s.sg = (IF NLoops(s, DOMAIN s.v) % 2 = 1 THEN 1 ELSE -1)
\* the worm's fixed end always sits at the OUT end of its interaction line
MashaOK(s) == s.worm.e => s.v[s.worm.m].d = DO
=============================================================================
