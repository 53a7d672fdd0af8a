----------------------------- MODULE IndexTrace -----------------------------
(* The real IndexMapSPIN2, IndexMapSPIN4, Lattice and Vec against Index.tla. *)
EXTENDS TraceLib
VARIABLE i
I == INSTANCE Index WITH MaxL <- 1, MaxSub <- 1, MaxNt <- 1, c <- 0
Ev == Trace[i]
Bad(e) ==
  CASE e.k = "smooth" -> \* rows <<spin a, site a, spin b, site b, time difference, position>>
         UNION { If(LET x == e.rows[j] IN x[6] = I!Smooth(e.ns, e.L, e.nsub, e.nt, x[1], x[2], x[3], x[4], x[5]),
                    <<"C17", "position of spins, sites and time", e.rows[j]>>) : j \in DOMAIN e.rows }
    [] e.k = "delta" ->
         UNION { If(LET x == e.rows[j] IN x[5] = I!Flat(e.ns, e.L, e.nsub, x[1], x[2], x[3], x[4]),
                    <<"C17", "position of spins and sites", e.rows[j]>>) : j \in DOMAIN e.rows }
    [] e.k = "tau" -> \* rows <<difference, bin, bin of the difference alone, sign>>
         UNION { LET x == e.rows[j] IN
                 If(x[2] = I!Bin(e.nt, x[1]) /\ x[3] = I!Bin(e.nt, x[1]), <<"C17", "time bin", x>>)
                 \cup If(x[4] = I!SymFactor(e.anti, x[1]), <<"C17", "sign of a time difference", x>>) : j \in DOMAIN e.rows }
    [] e.k = "mid" -> \* middle of every bin, in half bins, and the bin it is in
         UNION { If(e.t[j] = I!Middle(j - 1) /\ e.b[j] = j - 1, <<"C17", "middle of a bin", j - 1, e.t[j], e.b[j]>>) : j \in DOMAIN e.t }
    [] e.k = "vec" -> \* rows <<v, index, vector of that index, v shifted from outside>>
         UNION { LET x == e.rows[j] IN
                 If(x[2] = I!Vec2Index(e.L, x[1]) /\ x[3] = x[1] /\ I!Index2Vec(e.L, x[2]) = x[1], <<"C17", "index of a vector", x>>)
                 \cup If(\A q \in DOMAIN x[4] : x[4][q] = x[1], <<"C17", "periodic shift", x>>) : j \in DOMAIN e.rows }
    [] e.k = "shape" -> If(e.shape = <<e.ns, e.nsub, e.ns, e.nsub, I!Vol(e.L), e.nt>> /\ e.vol = I!Vol(e.L) /\ e.sub = e.nsub,
                           <<"C17", "shape", e.shape>>)
    [] e.k = "ops" -> LET Z(F(_, _)) == <<F(e.a[1], e.b[1]), F(e.a[2], e.b[2])>>
                          P(x, y) == x + y   M(x, y) == x - y   T(x, y) == x * e.n
                      IN If(e.add = Z(P) /\ e.sub = Z(M) /\ e.pe = Z(P) /\ e.me = Z(M) /\ e.mul = Z(T)
                            /\ e.eq = (e.a = e.b) /\ e.ne = (e.a # e.b) /\ e.seq = (e.a = e.b /\ e.s1 = e.s2) /\ e.sne = ~(e.a = e.b /\ e.s1 = e.s2)
                            /\ e.rt = e.a, <<"C17", "vector arithmetic", e.a, e.b>>)
    [] e.k = "died" -> {<<"C17", "the code crashed">>}
    [] OTHER -> {}
Init == i = 1
Next == i <= Len(Trace) /\ ReportAt(i, Bad(Ev)) /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
