------------------------------ MODULE BareTrace ------------------------------
(* Recordings of bare propagators and interactions the coordinator builds.   *)
EXTENDS TraceLib
VARIABLES i, c, f
\* c: the model; f: the field that goes away and its interval
vars == <<i, c, f>>
G == INSTANCE Lattice WITH Sizes <- {}, c <- 0
Ev == Trace[i]
P == "C27"
Abs(x) == IF x < 0 THEN -x ELSE x
---------------------------------------------------------------------------
\* squared distances, in 14400ths
SitesBad(e) ==
  If(\A r \in Range(e.pts) : Abs(r[4] * G!Geo[c.name].s * G!Geo[c.name].q * G!Geo[c.name].q - 14400 * G!D2(c.name, G!Vector(c.name, r[1], r[2], r[3]))) < 40,
     <<P, "a site is somewhere else", c.name, c.L, e.pts>>)
---------------------------------------------------------------------------
(* The bare propagator of a spin in a field h with beta h / 2 = k ln 2, in   *)
(* units of 10^-4: G(t) = exp(mu t) / (1 + exp(mu beta)), exp(mu beta) = ix *)
\* products in 10^-8
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Near(a, b) == Abs(a[1] - b[1]) < 30000 /\ Abs(a[2] - b[2]) < 30000
Unit == 100000000
\* ix / (1 + ix)^2
Product(k) == CASE k = 0 -> <<Unit \div 2, 0>> [] k = 1 -> <<8 * (Unit \div 25), -6 * (Unit \div 25)>> [] k = -1 -> <<8 * (Unit \div 25), 6 * (Unit \div 25)>>
\* the next after the last would be ix times the first
Times(k, w) == CASE k = 0 -> <<-w[2], w[1]>> [] k = 1 -> <<-2 * w[2], 2 * w[1]>> [] k = -1 -> <<-(w[2] \div 2), w[1] \div 2>>
Conj(w) == <<w[1], -w[2]>>
PropagatorBad(k, g) ==
  LET n == Len(g)
      Next(t) == IF t < n THEN g[t + 1] ELSE Times(k, g[1])
      turn == Mul(Next(1), Conj(g[1]))
  IN If(\A t \in 1..n : Near(Mul(g[t], g[n + 1 - t]), Product(k)), <<P, "bare propagator: size", k, g>>)
     \cup If(\A t \in 1..n : t > 1 => Near(Mul(g[t], g[t]), Mul(g[t - 1], Next(t))), <<P, "bare propagator: not one exponential", k, g>>)
     \cup If(g[1][1] > 0 /\ turn[1] > -30000 /\ turn[2] > 0, <<P, "bare propagator: sign", k, g>>)
\* the same two sites are coupled the same way however far apart in time
Field(a) == c.ext[a] + f.delta[a]
\* the propagator of spin s (0 is along the field)
Ks(s, a) == IF s = 0 THEN Field(a) ELSE -Field(a)
BuiltBad(e) ==
  LET want == G!Bare(c.name, c.kitaev = 1, c.L, c.J)
      got == { <<r[1], r[2], r[3], r[4], r[5], r[6]>> : r \in Range(e.w) }
  IN If(got = want, <<P, "bare interaction", c.name, c.kitaev, c.L, "too many:", got \ want, "missing:", want \ got>>)
     \cup If(e.exact = 1, <<P, "bare interaction is not real", c.name>>)
     \cup If(e.elsewhere = 0, <<P, "bare propagator between different sites or spins", c.name>>)
     \cup UNION { IF Ks(s, a) \in {-8, 0, 8} THEN PropagatorBad(Ks(s, a) \div 8, e.g[s * c.nsub + a]) ELSE {} : s \in 0..1, a \in 1..c.nsub }
     \* the two spins are each other's mirror image in time
     \cup If(\A a \in 1..c.nsub : \A t \in 1..c.nt : LET u == e.g[a][t] d == e.g[c.nsub + a][c.nt + 1 - t] IN Abs(u[1] - d[1]) < 4 /\ Abs(u[2] + d[2]) < 4,
             <<P, "bare propagators of the two spins", e.g>>)
---------------------------------------------------------------------------
Plus(a, b) == [k \in DOMAIN a |-> a[k] + b[k]]
Decreased == IF f.delta[1] = 0 THEN f.delta ELSE Plus(f.delta, f.interval)
Half == [k \in DOMAIN f.interval |-> f.interval[k] \div 2]
Reverted == [k \in DOMAIN f.delta |-> f.delta[k] - Half[k]]
FieldBad(e) ==
  CASE e.k = "decrease" -> If(e.delta = Decreased /\ e.interval = f.interval /\ (e.said = 1) = (f.delta[1] # 0), <<P, "field decreased", f, e>>)
    [] e.k = "revert" -> If(e.delta = Reverted /\ e.interval = Half, <<P, "field reverted", f, e>>)
Bad(e) ==
  CASE e.k = "sites" -> SitesBad(e)
    [] e.k = "built" -> BuiltBad(e)
    [] e.k \in {"decrease", "revert"} -> FieldBad(e)
    [] e.k = "fail" -> {<<P, "no bare model", c, e.what>>}
    [] e.k = "died" -> {<<P, "died", e.rc>>}
    [] OTHER -> {}
Step(e) ==
  CASE e.k = "about" -> c' = e /\ f' = [delta |-> e.delta, interval |-> e.interval]
    [] e.k = "decrease" -> f' = [f EXCEPT !.delta = Decreased] /\ UNCHANGED c
    [] e.k = "revert" -> f' = [delta |-> Reverted, interval |-> Half] /\ UNCHANGED c
    [] OTHER -> UNCHANGED <<c, f>>
Init == i = 1 /\ c = << >> /\ f = << >>
Next == i <= Len(Trace) /\ Step(Ev) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
