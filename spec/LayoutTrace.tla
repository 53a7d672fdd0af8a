----------------------------- MODULE LayoutTrace -----------------------------
(* Recordings of weights on their way from the coordinator to a worker and of *)
(* statistics on their way back.  The numbers the coordinator publishes say   *)
(* where they belong; what the worker measures is followed position by        *)
(* position until the coordinator has collected it.                           *)
EXTENDS TraceLib
VARIABLES i, c, wt, acc
\* c: what the tables are of; wt: the three-point function given; acc: what has been measured
vars == <<i, c, wt, acc>>
I == INSTANCE Index WITH MaxL <- 1, MaxSub <- 1, MaxNt <- 1, c <- 0
Y == INSTANCE Symmetry WITH Sizes <- {}, Names <- {}, MaxNt <- 1, c <- 0
Ev == Trace[i]
P == "C26"
Neg(w) == <<-w[1], -w[2]>>
Conj(w) == <<w[1], -w[2]>>
V == I!Vol(c.L)
RECURSIVE Prod(_)
Prod(q) == IF q = << >> THEN 1 ELSE Head(q) * Prod(Tail(q))
---------------------------------------------------------------------------
(* What the coordinator's maps say *)
RECURSIVE Vecs(_)
Vecs(L) == IF Len(L) = 1 THEN { <<x>> : x \in 0..(L[1] - 1) } ELSE { <<x>> \o v : x \in 0..(L[1] - 1), v \in Vecs(Tail(L)) }
Bits == { <<a, b, x, y>> : a \in 0..1, b \in 0..1, x \in 0..1, y \in 0..1 }
Conserved(q) == q[1] + q[3] = q[2] + q[4]
Bin(nt, d) == I!Bin(nt, d)
MapBad(e) ==
  LET n == Prod(e.L) IN
  If(e.vol = n, <<P, "number of cells", e.vol>>)
  \cup If({ r[1] : r \in Range(e.index) } = Vecs(e.L) /\ { r[2] : r \in Range(e.index) } = 0..(n - 1), <<P, "every cell has its own position", e.index>>)
  \cup If({ <<r[2], r[1]>> : r \in Range(e.coordi) } = { <<r[1], r[2]>> : r \in Range(e.index) }, <<P, "position to cell is not the inverse", e.coordi>>)
  \cup If(UNION { Range(r[3]) : r \in Range(e.index) } = 0..(n * e.nsub - 1), <<P, "every site has its own position", e.index>>)
  \cup If(Len(e.all) = n /\ Range(e.all) = Vecs(e.L), <<P, "all cells, each once", e.all>>)
  \cup If({ r[3] : r \in Range(e.spin2) } = 0..3, <<P, "every pair of spins has its own position", e.spin2>>)
  \cup If(\A q \in Bits : \A r \in Range(e.conserved) : r[1] = 8 * q[1] + 4 * q[2] + 2 * q[3] + q[4] => (r[2] # 0) = Conserved(q), <<P, "spin conservation", e.conserved>>)
  \cup If(Range(e.allowed) = { q \in Bits : Conserved(q) } /\ Len(e.allowed) = 6, <<P, "the spins an interaction allows", e.allowed>>)
  \cup If(Range(e.allowed2) = {<<0, 0>>, <<1, 1>>} /\ Len(e.allowed2) = 2, <<P, "the spins a propagator allows", e.allowed2>>)
  \cup If(Range(e.sublat) = (0..(e.nsub - 1)) \X (0..(e.nsub - 1)) /\ Len(e.sublat) = e.nsub * e.nsub, <<P, "all pairs of sublattices", e.sublat>>)
  \cup If(Range(e.local) = { <<s, s>> : s \in 0..(e.nsub - 1) } /\ Len(e.local) = e.nsub, <<P, "all sublattices", e.local>>)
  \cup If(\A r \in Range(e.tau) : r[2] = Bin(e.nt, r[1]), <<P, "bin of a time", e.nt, e.tau>>)
  \cup If(e.middle = [b \in 1..e.nt |-> I!Middle(b - 1)], <<P, "time of a bin", e.middle>>)
---------------------------------------------------------------------------
(* Three-point functions: the compact storage *)
\* some pairs of times, of many: <<t1, t2, place of both orders, number of sharers, flag, and the pair kept>>
ManyBad(e) ==
  If(e.size = Y!TauSize(e.nt) /\ \A x \in Range(e.at) :
       /\ x[3] = x[4] /\ x[3] \in 0..(e.size - 1)
       /\ IF x[1] = x[2] THEN x[5] = 1 /\ x[7] = 0 ELSE x[5] = 2 /\ x[6] = 2 /\ x[7] + x[8] = 1
       /\ <<x[9], x[10]>> = IF x[7] = 0 THEN <<x[1], x[2]>> ELSE <<x[2], x[1]>>, <<P, "places of many pairs of times", e.nt>>)
Cell(L, r) == I!Index2Vec(L, r)
SymBad(e) ==
  LET n == I!Vol(e.L)
      T == e.nt
      rr == (0..(n - 1)) \X (0..(n - 1))
      tt == (0..(T - 1)) \X (0..(T - 1))
      RS(p) == e.rs[p[1] * n + p[2] + 1]
      RF(p) == e.rf[p[1] * n + p[2] + 1]
      TS(t) == e.ts[t[1] * T + t[2] + 1]
      TF(t) == e.tf[t[1] * T + t[2] + 1]
      TG(t) == e.tg[t[1] * T + t[2] + 1]
      Cl(p) == { <<I!Vec2Index(e.L, q[1]), I!Vec2Index(e.L, q[2])>> : q \in Y!Class(e.name, e.L, <<Cell(e.L, p[1]), Cell(e.L, p[2])>>) }
      At(f, s, p, t) == LET k == ((((s * n + p[1]) * n + p[2]) * T + t[1]) * T + t[2]) * 2 IN <<f[k + 1], f[k + 2]>>
      Pk(s, r, t) == LET k == ((s * Len(e.rr) + r) * Len(e.tr) + t) * 2 IN <<e.packed[k + 1], e.packed[k + 2]>>
      Want(s, p, t) == IF TG(t) = 0 THEN Pk(s, RS(p), TS(t)) ELSE Neg(Conj(Pk(s, RS(<<p[2], p[1]>>), TS(t))))
  IN If(\A p \in rr : { q \in rr : RS(q) = RS(p) } = Cl(p), <<P, "pairs of cells that share a place", e.name, e.L, e.rs>>)
     \cup If({ RS(p) : p \in rr } = 0..(Len(e.rr) - 1) /\ \A p \in rr : e.rr[RS(p) + 1] \in Cl(p), <<P, "places of pairs of cells", e.name, e.L, e.rr>>)
     \cup If(\A p \in rr : RF(p) = Cardinality(Cl(p)), <<P, "how many pairs of cells share a place", e.name, e.L, e.rf>>)
     \cup If(\A t \in tt : { u \in tt : TS(u) = TS(t) } = {t, <<t[2], t[1]>>}, <<P, "pairs of times that share a place", e.ts>>)
     \cup If({ TS(t) : t \in tt } = 0..(Y!TauSize(T) - 1) /\ Len(e.tr) = Y!TauSize(T) /\ \A t \in tt : TG(t) = 0 => e.tr[TS(t) + 1] = t, <<P, "places of pairs of times", e.ts, e.tr>>)
     \cup If(\A t \in tt : TF(t) = (IF t[1] = t[2] THEN 1 ELSE 2), <<P, "how many pairs of times share a place", e.tf>>)
     \cup If(\A t \in tt : IF t[1] = t[2] THEN TG(t) = 0 ELSE TG(t) # TG(<<t[2], t[1]>>), <<P, "which pairs of times are mirrored", e.tg>>)
     \cup If(e.given = e.back, <<P, "a symmetric function is not what it was after packing and unpacking", e.name, e.L, e.nt>>)
     \cup If(\A s \in 0..1 : \A p \in rr : \A t \in tt : At(e.unpacked, s, p, t) = Want(s, p, t), <<P, "unpacking", e.name, e.L, e.nt>>)
---------------------------------------------------------------------------
(* What a worker reads *)
Class6(e) ==
  CASE e.out = <<1, 1>> /\ e.inn = <<1, 1>> -> 0
    [] e.out = <<0, 0>> /\ e.inn = <<0, 0>> -> 1
    [] e.out = <<1, 1>> /\ e.inn = <<0, 0>> -> 2
    [] e.out = <<0, 0>> /\ e.inn = <<1, 1>> -> 3
    [] e.out = <<1, 0>> /\ e.inn = <<0, 1>> -> 4
    [] e.out = <<0, 1>> /\ e.inn = <<1, 0>> -> 5
S4(q) == I!Spin4(q[1], q[2])
Anti(d) == IF d < 0 THEN -1 ELSE 1
Times(k, w) == <<k * w[1], k * w[2]>>
Given(s, r1, r2, t1, t2) == LET k == ((((s * V + r1) * V + r2) * c.ntt + t1) * c.ntt + t2) * 2 IN <<wt[k + 1], wt[k + 2]>>
ReadIs(e) ==
  CASE e.what = "G" -> Times(Anti(e.d), <<I!Smooth(2, c.L, c.nsub, c.nt, e.sa, e.a, e.sb, e.b, e.d) + 1, 3>>)
    [] e.what = "W" -> <<I!Smooth(4, c.L, c.nsub, c.nt, S4(e.inn), e.a, S4(e.out), e.b, e.d) + 1, 7>>
    [] e.what = "WDelta" -> <<-I!Flat(4, c.L, c.nsub, S4(e.inn), e.a, S4(e.out), e.b) - 1, 5>>
    [] e.what = "GammaG" -> Times(Anti(e.d1) * Anti(e.d2), <<((e.sa * V + I!Coord(c.L, e.a, e.u)) * c.nt + Bin(c.nt, e.d1)) * c.nt + Bin(c.nt, e.d2) + 1, 11>>)
    [] e.what = "GammaW" ->
         LET k == Class6(e)
             v == Given(IF k >= 4 THEN 1 ELSE 0, I!Coord(c.L, e.b, e.u), I!Coord(c.L, e.a, e.u), Bin(c.ntt, e.d1), Bin(c.ntt, e.d2))
         IN CASE k \in {0, 1, 5} -> v [] k \in {2, 3} -> Neg(v) [] k = 4 -> Neg(Conj(v))
---------------------------------------------------------------------------
(* What comes back: sums by position *)
Plus(f, k, w) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = <<@[1] + w[1], @[2] + w[2]>>] ELSE f @@ (k :> w)
RECURSIVE PlusAll(_, _)
PlusAll(f, S) == IF S = {} THEN f ELSE LET x == CHOOSE x \in S : TRUE IN PlusAll(Plus(f, x[1], x[2]), S \ {x})
Div(w, n) == <<w[1] \div n, w[2] \div n>>
\* a sample of the three-point function W, in units of 1/8, spread over the arguments it stands for
Spread(e) ==
  LET k == Class6(e)
      s == IF k >= 4 THEN 1 ELSE 0
      y == CASE k \in {0, 1} -> Times(8, e.w) [] k \in {2, 3} -> Times(-8, e.w) [] k = 4 -> Times(4, e.w) [] k = 5 -> Neg(Conj(Times(4, e.w)))
      p == <<I!Disp(c.L, e.b, e.u), I!Disp(c.L, e.a, e.u)>>
      t1 == Bin(c.ntt, e.d1)
      t2 == Bin(c.ntt, e.d2)
      z == Div(y, Y!Share(c.name, c.L, p, t1, t2))
  IN { <<<<s>> \o q[1] \o q[2] \o <<t1, t2>>, z>> : q \in Y!Class(c.name, c.L, p) }
     \cup (IF t1 = t2 THEN {} ELSE { <<<<s>> \o q[2] \o q[1] \o <<t2, t1>>, Neg(Conj(z))>> : q \in Y!Class(c.name, c.L, p) })
Measured(e) ==
  CASE e.what = "Sigma" -> {<<<<e.ord, e.sa, e.sb, e.a[1], e.b[1]>> \o I!Disp(c.L, e.a, e.b) \o <<Bin(c.nt, e.d)>>, Times(Anti(e.d), e.w)>>}
    [] e.what = "Polar" -> {<<<<e.ord, S4(e.inn), S4(e.out), e.a[1], e.b[1]>> \o I!Disp(c.L, e.a, e.b) \o <<Bin(c.nt, e.d)>>, e.w>>}
    [] e.what = "GammaG" -> {<<<<e.sa>> \o I!Disp(c.L, e.a, e.u) \o <<Bin(c.nt, e.d1), Bin(c.nt, e.d2)>>, Times(Anti(e.d1) * Anti(e.d2), e.w)>>}
    [] e.what = "GammaW" -> Spread(e)
Nothing == [Sigma |-> << >>, Polar |-> << >>, GammaG |-> << >>, GammaW |-> << >>]
Rows(f) == { k \o f[k] : k \in { k \in DOMAIN f : f[k] # <<0, 0>> } }
ShapeIs(what) ==
  CASE what = "Sigma" -> <<c.order, 2, c.nsub, 2, c.nsub, V, c.nt>>
    [] what = "Polar" -> <<c.order, 4, c.nsub, 4, c.nsub, V, c.nt>>
    [] what = "GammaG" -> <<2, V, c.nt, c.nt>>
    [] what = "GammaW" -> <<2, V, V, c.ntt, c.ntt>>
BackBad(e) ==
  LET got == Range(e.rows)
      want == Rows(acc[e.what])
  IN If(e.shape = ShapeIs(e.what), <<P, "shape of what comes back", e.what, e.shape>>)
     \cup If(got = want, <<P, "what comes back is not where it was measured", e.what, "too many:", got \ want, "missing:", want \ got>>)
Bad(e) ==
  CASE e.k = "map" -> MapBad(e)
    [] e.k = "sym" -> SymBad(e)
    [] e.k = "many" -> ManyBad(e)
    [] e.k = "read" -> If(e.v = ReadIs(e), <<P, "a worker reads another weight", e.what, e.v, ReadIs(e)>>)
    [] e.k = "back" -> BackBad(e)
    [] e.k = "fail" -> {<<P, "no way from one to the other", e.what>>}
    [] e.k = "died" -> {<<P, "died", e.rc>>}
    [] OTHER -> {}
Step(e) ==
  CASE e.k = "about" -> c' = e /\ acc' = Nothing /\ UNCHANGED wt
    [] e.k = "sym" -> wt' = e.given /\ UNCHANGED <<c, acc>>
    [] e.k = "measure" -> acc' = [acc EXCEPT ![e.what] = PlusAll(@, Measured(e))] /\ UNCHANGED <<c, wt>>
    [] OTHER -> UNCHANGED <<c, wt, acc>>
Init == i = 1 /\ c = << >> /\ wt = << >> /\ acc = Nothing
Next == i <= Len(Trace) /\ Step(Ev) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
