----------------------------- MODULE TableTrace -----------------------------
(* Recordings of the real self-energy, polarization and three-point tables:  *)
(* two of one kind at a time, each shown in full after every operation.      *)
EXTENDS TraceLib
VARIABLES i, c, m
\* c: what the tables are of (the "new" event); m: the specification's two tables
vars == <<i, c, m>>
T == INSTANCE Table WITH P <- 0, Ks <- {}, Bins <- {}, Ws <- {}, Cap <- 0, t <- 0, log <- 0
I == INSTANCE Index WITH MaxL <- 1, MaxSub <- 1, MaxNt <- 1, c <- 0
Ev == Trace[i]
Power(e) == IF e.kind \in {"sigma", "polar"} THEN 2 ELSE 3
Shape(e, o) == LET v == I!Vol(e.L) IN
  CASE e.kind = "sigma" -> <<e.orders[o], 2, e.nsub, 2, e.nsub, v, e.nt>>
    [] e.kind = "polar" -> <<e.orders[o], 4, e.nsub, 4, e.nsub, v, e.nt>>
    [] e.kind = "gammag" -> <<2, v, e.nt, e.nt>>
    [] e.kind = "gammaw" -> <<2, e.RS, e.TS>>
RECURSIVE Prod(_)
Prod(q) == IF q = << >> THEN 1 ELSE Head(q) * Prod(Tail(q))
Conj(w) == <<w[1], -w[2]>>
Neg(w) == <<-w[1], -w[2]>>
Div(w, n) == <<w[1] \div n, w[2] \div n>>
\* ---- three-point functions: where a measurement goes, and with what sign
G3Bin(e) == (e.sa * I!Vol(c.L) + I!Coord(c.L, e.a, e.u)) * c.nt * c.nt + I!Bin(c.nt, e.d1) * c.nt + I!Bin(c.nt, e.d2)
G3Sign(e) == (IF e.d1 < 0 THEN -1 ELSE 1) * (IF e.d2 < 0 THEN -1 ELSE 1)
\* spins <<in, out>> of the two ends (1: up): which of the six that conserve spin
W3Spin(e) ==
  CASE e.out = <<1, 1>> /\ e.inn = <<1, 1>> -> 0
    [] e.out = <<0, 0>> /\ e.inn = <<0, 0>> -> 1
    [] e.out = <<1, 1>> /\ e.inn = <<0, 0>> -> 2
    [] e.out = <<0, 0>> /\ e.inn = <<1, 1>> -> 3
    [] e.out = <<1, 0>> /\ e.inn = <<0, 1>> -> 4
    [] e.out = <<0, 1>> /\ e.inn = <<1, 0>> -> 5
W3T(e) == I!Bin(c.nt, e.d1) * c.nt + I!Bin(c.nt, e.d2) + 1
\* a flagged pair of times stands for the mirrored one: both ends change places
W3R(e) == LET x == IF c.fl[W3T(e)] # 0 THEN <<e.a, e.b>> ELSE <<e.b, e.a>>
          IN I!Coord(c.L, x[1], e.u) * I!Vol(c.L) + I!Coord(c.L, x[2], e.u) + 1
W3Bin(e) == c.rs[W3R(e)] * c.TS + c.ts[W3T(e)] + (IF W3Spin(e) >= 4 THEN c.RS * c.TS ELSE 0)
W3Sample(e, w) ==
  LET s == W3Spin(e)
      d == Div(w, c.rf[W3R(e)] * c.tf[W3T(e)])
      x == IF c.fl[W3T(e)] # 0 THEN Neg(Conj(d)) ELSE d
  IN CASE s \in {0, 1} -> x [] s \in {2, 3} -> Neg(x) [] s = 4 -> Div(x, 2) [] s = 5 -> Neg(Conj(Div(x, 2)))
W3Read(e, v) ==
  LET s == W3Spin(e)
      x == IF c.fl[W3T(e)] # 0 THEN Neg(Conj(v)) ELSE v
  IN CASE s \in {0, 1} -> x [] s \in {2, 3} -> Neg(x) [] s = 4 -> Neg(Conj(x)) [] s = 5 -> x
\* ---- any table
Bin(e) ==
  LET size(o) == Prod(Tail(Shape(c, o))) IN
  CASE c.kind = "sigma" -> (e.ord - 1) * size(e.o) + I!Smooth(2, c.L, c.nsub, c.nt, e.sa, e.a, e.sb, e.b, e.d)
    [] c.kind = "polar" -> (e.ord - 1) * size(e.o) + I!Smooth(4, c.L, c.nsub, c.nt, e.sa, e.a, e.sb, e.b, e.d)
    [] c.kind = "gammag" -> G3Bin(e)
    [] c.kind = "gammaw" -> W3Bin(e)
Sample(e) ==
  CASE c.kind = "sigma" -> IF I!SymFactor(c.anti, e.d) = 1 THEN e.w ELSE Neg(e.w)
    [] c.kind = "polar" -> e.w
    [] c.kind = "gammag" -> IF G3Sign(e) = 1 THEN e.w ELSE Neg(e.w)
    [] c.kind = "gammaw" -> W3Sample(e, e.w)
\* the normalization constant times 16 * volume * (2^k)^p
Constant(e) == e.nf * (IF Power(e) = 2 THEN e.nt ELSE e.nt * e.nt) * 16
Step(e) ==
  CASE e.k = "new" -> c' = e /\ m' = <<T!Fresh(Constant(e), e.kb), T!Fresh(Constant(e), e.kb)>>
    [] e.k = "measure" -> m' = [m EXCEPT ![e.o] = T!Add(@, Bin(e), Sample(e))] /\ UNCHANGED c
    [] e.k = "norm" -> m' = [m EXCEPT ![e.o] = T!AddNorm(@, e.w)] /\ UNCHANGED c
    [] e.k = "squeeze" -> m' = [m EXCEPT ![e.o] = T!Squeeze(@, e.e)] /\ UNCHANGED c
    [] e.k = "clear" -> m' = [m EXCEPT ![e.o] = T!Clear(@)] /\ UNCHANGED c
    [] e.k = "reset" -> m' = [m EXCEPT ![e.o] = T!Anneal(@, Power(c), e.kb)] /\ UNCHANGED c
    [] e.k = "import" -> m' = [m EXCEPT ![e.to] = T!Import(@, m[e.o], Prod(Shape(c, e.to)))] /\ UNCHANGED c
    [] OTHER -> UNCHANGED <<c, m>>
ObsBad(o, s, x) ==
  If({ <<r[1], r[2], r[3]>> : r \in Range(s.a) } = T!NonZero(x), <<"C10", "contents", c'.kind, o, s.a, x>>)
  \cup If(s.n = x.n, <<"C10", "accumulated norm", c'.kind, o, s.n, x.n>>)
  \cup If(s.norm = x.norm, <<"C10", "normalization constant", c'.kind, o, s.norm, x.norm>>)
  \cup If(s.shape = Shape(c', o), <<"C10", "shape", c'.kind, o, s.shape>>)
Bad(e) ==
  (IF e.k \in {"died", "end"} THEN {} ELSE UNION { ObsBad(o, e.st[o], m'[o]) : o \in 1..2 })
  \cup CASE e.k = "import" -> If(e.ok, <<"C10", "taking over a table", "refused">>)
         [] e.k = "badsqueeze" -> If(e.thrown, <<"C10", "squeezing by zero or less", "accepted">>)
         [] e.k = "badshape" -> If(e.refused, <<"C10", "a table of another shape", "accepted">>)
         [] e.k = "read" ->
              UNION { LET r == e.rows[j] IN
                      If(IF c.kind = "gammag"
                         THEN LET v == e.table[G3Bin(r) + 1] IN r.v = IF G3Sign(r) = 1 THEN v ELSE Neg(v)
                         ELSE r.v = W3Read(r, e.table[W3Bin(r) + 1]), <<"C10", "reading a three-point function", c.kind, r>>) : j \in DOMAIN e.rows }
         [] e.k = "died" -> {<<"C10", "the code crashed">>}
         [] OTHER -> {}
Init == i = 1 /\ c = << >> /\ m = << >>
Next == i <= Len(Trace) /\ Step(Ev) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
