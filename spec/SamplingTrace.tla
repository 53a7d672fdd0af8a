---------------------------- MODULE SamplingTrace ----------------------------
(***************************************************************************)
(* What independent runs of the real chain were seen in, against           *)
(* Sampling.tla.  A frequency is wrong when it is off by more than eight   *)
(* standard errors, as the runs tell it, and a third of a per cent: times  *)
(* and momenta that coincide are as rare as that.                          *)
(***************************************************************************)
EXTENDS TraceLib
CfgRec == JsonDeserialize(IOEnv.CFG)
Sa == INSTANCE Sampling WITH Cfg <- CfgRec
VARIABLES i, p
vars == <<i, p>>
Ev == Trace[i]
Seen == { j \in 1..Len(Trace) : Trace[j].k = "seen" }
RECURSIVE SumOver(_, _)
SumOver(S, r) == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN Trace[j].n[r] + SumOver(S \ {j}, r)
RECURSIVE Root(_, _)
Root(n, x) == IF x * x <= n THEN x ELSE Root(n, (x + (n \div x)) \div 2)
Abs(x) == IF x < 0 THEN -x ELSE x
Q(f, R) == Sa!SumQ([r \in 1..R |-> f[r]], 1)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Off(what, n, R, tot, want) ==
  LET q == TLCEval([r \in 1..R |-> Sa!Fraction(n[r], tot[r])])
      mean == Q(q, R) \div R
      s == (Max({ Abs(q[r] - mean) : r \in 1..R }) \div 4000) + 1
      v == Q([r \in 1..R |-> ((q[r] - mean) \div s) * ((q[r] - mean) \div s)], R)
      se == 1 + ((s * (Root(v, 40000) + 1)) \div Root(R * (R - 1), 100))
  IN If(Abs(mean - want) <= 8 * se + (want \div 300) + 20, <<"C33", "visited too often or too rarely", what, want, mean, se>>)
     \cup If(want < 10000 \/ 8 * se <= want, <<"C33", "independent runs disagree", what, want, mean, se>>)

(* --- the parts of a diagram: every bin of what as likely as any other ----- *)
Parts == <<"time of a vertex", "site of a vertex", "spin of a propagator", "momentum of a propagator", "momentum of an interaction",
           "time across an interaction", "time of the external point", "site of the external point">>
\* sites and spins are alike only if all weights are
Alike(w) == w \notin {1, 2, 7} \/ CfgRec.flat
Bins(w) == IF w \in {1, 7} THEN { r[1] * 100 + r[2] * 10 + r[3] : r \in Sa!Dg!Sites }
           ELSE IF w = 2 THEN {0, 1} ELSE 0..7
PartsBad(e) ==
  UNION { LET J == { j \in 1..Len(Trace) : Trace[j].k = "place" /\ Trace[j].what = w }
              B == Bins(w)
              tot == TLCEval([r \in 1..e.runs |-> SumOver(J, r)])
              least == Min({ tot[r] : r \in 1..e.runs })
          IN { <<"C33", "out of range", Parts[w+1], b>> : b \in { Trace[j].bin : j \in J } \ B }
             \cup (IF w \in {6, 7} /\ ~CfgRec.g3 THEN If(J = {}, <<"C33", "an insertion where there is none">>)
                   ELSE If(least > 1000, <<"C33", "hardly ever seen", Parts[w+1], least>>)
                        \cup (IF least <= 1000 THEN {}
                              ELSE { <<"C33", "never visited", Parts[w+1], b>> : b \in B \ { Trace[j].bin : j \in J } }
                                   \cup (IF ~Alike(w) THEN {}
                                         ELSE UNION { Off(<<Parts[w+1], Trace[j].bin>>, Trace[j].n, e.runs, tot, Sa!Unit \div Cardinality(B)) : j \in J }))) : w \in 0..7 }
\* the kinds of one order and measuring line together
RECURSIVE SumP(_)
SumP(K) == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN p[k] + SumP(K \ {k})
SectorsBad(R, tot) ==
  UNION { LET J == { j \in Seen : Trace[j].kind[1] = n /\ Trace[j].kind[2] = mk /\ Trace[j].kind[5] = ins }
              K == { k \in DOMAIN p : k[1] = n /\ k[2] = mk /\ k[5] = ins }
          IN IF SumP(K) < 10000 THEN {} ELSE Off(<<"order, sector, insertion", n, mk, ins>>, [r \in 1..R |-> SumOver(J, r)], R, tot, SumP(K))
          : n \in 0..CfgRec.maxord, mk \in {0, 1}, ins \in 0..2 }
Bad(e) ==
  CASE e.k = "total" ->
         LET R == e.runs
             tot == TLCEval([r \in 1..R |-> SumOver(Seen, r)])
             here == { Trace[j].kind : j \in Seen }
             least == Min({ tot[r] : r \in 1..R })
             \* kinds seen a hundred times a run are counted well enough
             often == { k \in DOMAIN p : (p[k] \div 100) * (least \div 10000) >= 1000 }
         IN If(least > 1000, <<"C33", "the chain hardly visits physical diagrams", tot>>)
            \cup UNION { LET kd == Trace[j].kind
                         IN IF kd \in DOMAIN p THEN {} ELSE {<<"C33", "a kind of diagram that should not occur", kd>>} : j \in Seen }
            \cup PartsBad(e)
            \cup { <<"C33", "never visited", k, p[k]>> : k \in often \ here }
            \cup (IF least <= 1000 THEN {}
                  ELSE SectorsBad(R, tot) \cup UNION { Off(Trace[j].kind, Trace[j].n, R, tot, p[Trace[j].kind]) : j \in { x \in Seen : Trace[x].kind \in often } })
    [] e.k = "died" -> {<<"C33", "the code crashed">>}
    [] OTHER -> {}
Init == i = 1 /\ p = Sa!Expected
Next == /\ i <= Len(Trace)
        /\ ReportAt(i, Bad(Ev))
        /\ i' = i + 1
        /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
=============================================================================
