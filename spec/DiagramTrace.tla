---------------------------- MODULE DiagramTrace ----------------------------
(***************************************************************************)
(* Checks recordings of the real mc::Markov against Diagram.tla.           *)
(*                                                                         *)
(* Each line of the recording is one event:                                *)
(*  init  the first diagram                                                *)
(*  op    one update: the diagram it proposed (c), how much of the last    *)
(*        uniform draw accepts it (thr, in 2^-20), whether it was taken    *)
(*  avail how often each discrete choice of one update came up in n runs   *)
(*  hop   what one step of the chain does as a function of its first draw  *)
(*  spoil the code's own verdict on the diagram with one thing changed     *)
(*  fail  an exception or a crash inside the code                          *)
(* Every event is judged against the specification; what is wrong with it  *)
(* is printed as <<"BAD", line, property, detail>>.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
CfgRec == JsonDeserialize(IOEnv.CFG)
INSTANCE Diagram WITH Cfg <- CfgRec

VARIABLES i, s
vars == <<i, s>>

Report(S) == \A b \in S : PrintT(ToJson(<<"BAD", i>> \o b))
If(c, b) == IF c THEN {} ELSE {b}

(* --- the state itself -------------------------------------------------- *)
Ids(st) == (DOMAIN st.v) \cup (DOMAIN st.g) \cup (DOMAIN st.w)
StructureBad(st) ==
  LET topo == TopoOK(st)
  IN If(topo, <<"C01", "topology">>)
     \cup (IF ~topo THEN {} ELSE
           If(KOK(st), <<"C02", "momentum">>)
           \cup If(SpinOK(st), <<"C03", "spin">>)
           \cup If(SectorOK(st), <<"C03", "sector">>)
           \cup If(SignOK(st), <<"C04", "sign">>)
           \cup If(MashaOK(st), <<"C03", "masha">>)
           \cup If(\A x \in DOMAIN st.v : st.v[x].r \in Sites /\ st.v[x].t[1] >= 0, <<"C01", "range">>)
           \cup If(st.ins # 0 => (st.host \in (DOMAIN st.g) \cup (DOMAIN st.w) /\ st.u.t[1] >= 0 /\ st.u.r \in Sites), <<"C08", "host">>))

\* what the diagram stores must be what its structure implies
ExtrasBad(st, x) ==
  IF ~TopoOK(st) THEN {}
  ELSE
  If({ k : k \in { x.gh[j] : j \in DOMAIN x.gh } } = GUsed(st), <<"C02", "GHash">>)
  \cup If({ k : k \in { x.wh[j] : j \in DOMAIN x.wh } } = WUsed(st), <<"C02", "WHash">>)
  \cup If(x.names, <<"C07", "names">>)
  \cup If(x.mg = (st.meas \in DOMAIN st.g), <<"C03", "MeasureGLine">>)
  \cup If(\A l \in DOMAIN st.g : x.gf[l][1] = (IF st.meas = l THEN 1 ELSE 0), <<"C03", "IsMeasure on G">>)
  \cup If(\A l \in DOMAIN st.w : x.wf[l][2] = (IF st.meas = l THEN 1 ELSE 0), <<"C03", "IsMeasure on W">>)
  \cup If(\A l \in DOMAIN st.w : x.wf[l][1] = (IF IsWormW(st, l) THEN 1 ELSE 0), <<"C03", "IsWorm">>)
  \cup If(\A l \in DOMAIN st.g : x.gf[l][2] = (IF st.ins = 1 /\ st.host = l THEN 1 ELSE 0), <<"C08", "IsGGGammaG">>)
  \cup If(\A l \in DOMAIN st.w : x.wf[l][3] = (IF st.ins = 2 /\ st.host = l THEN 1 ELSE 0), <<"C08", "IsWWGammaW">>)
  \cup If(st.ins = 1 /\ st.host \in DOMAIN st.g => x.vin = st.g[st.host].i /\ x.vout = st.g[st.host].o, <<"C08", "external legs">>)
  \cup If(st.ins = 2 /\ st.host \in DOMAIN st.w => x.vin = st.w[st.host].i /\ x.vout = st.w[st.host].o, <<"C08", "external legs">>)
  \cup (IF st.ord = 0 THEN {} ELSE
        If(\A l \in DOMAIN st.g : x.gw[l] = GLineW(st, l), <<"C04", "weight of a propagator">>)
        \cup If(\A l \in DOMAIN st.w : x.ww[l] = WLineW(st, l), <<"C04", "weight of an interaction">>))
  \cup If(x.wt = Weight(st), <<"C04", "weight of the diagram">>)
  \cup If(x.ph = <<0, Weight(st)[2]>>, <<"C04", "phase">>)

\* the code's own verdict on a diagram that the specification finds valid
CheckBad(st, x, chk) ==
  IF chk = -1 \/ StructureBad(st) # {} \/ ExtrasBad(st, x) # {} THEN {}
  ELSE If(chk = 1, <<"C20", "valid diagram rejected">>)

\* what the self-check is there to find
Inconsistent(st, x) ==
  \/ ~TopoOK(st)
  \/ st.worm.e /\ ~({st.worm.i, st.worm.m} \subseteq DOMAIN st.v)
  \/ x.mg # (st.meas \in DOMAIN st.g)
  \/ \E l \in DOMAIN st.g : x.gf[l][1] # (IF st.meas = l THEN 1 ELSE 0)
  \/ \E l \in DOMAIN st.w : x.wf[l][2] # (IF st.meas = l THEN 1 ELSE 0)
  \/ \E l \in DOMAIN st.w : x.wf[l][1] # (IF IsWormW(st, l) THEN 1 ELSE 0)
  \/ \E l \in DOMAIN st.w : st.w[l].dl /\ (st.meas = l \/ st.v[st.w[l].i].t # st.v[st.w[l].o].t)
  \/ \E y \in DOMAIN st.v : KBalance(st, y) # 0
  \/ ~SpinOK(st)
  \/ \E l \in DOMAIN st.g : x.gw[l] # GLineW(st, l)
  \/ \E l \in DOMAIN st.w : x.ww[l] # WLineW(st, l)
  \/ x.wt # Weight(st)
SpoilBad(e) ==
  IF e.st.ord = 0 THEN {}
  ELSE IF Inconsistent(e.st, e.x) THEN If(e.chk = 0, <<"C20", "inconsistent diagram passed", e.what>>)
  ELSE IF IsZero(e.x.wt) THEN {} ELSE CheckBad(e.st, e.x, e.chk)

(* --- one update -------------------------------------------------------- *)
InsOps == Ops3
OpBad(e) ==
  LET op == e.op
      t == e.c.st
      L == Leads(op, s, t)
      who == {"C05"} \cup (IF op \in InsOps \/ s.ins # 0 \/ t.ins # 0 THEN {"C08"} ELSE {}) \cup (IF t.ord > CfgRec.maxord \/ t.ord < 0 THEN {"C07"} ELSE {})
  IN IF ~TopoOK(s) THEN {}
     ELSE IF L = {} THEN { <<p, op>> : p \in who }
     ELSE LET x == CHOOSE y \in L : TRUE
              thr == AcceptThr(s, x)
          IN If(e.thr < 0 \/ Abs(thr - e.thr) <= 4 + thr \div 512, <<"C06", op, thr, e.thr>>)
             \cup If(e.dc = 0, <<"C05", "step counter">>)

(* --- proposal probabilities -------------------------------------------- *)
Total(op, st) ==
  CASE op = "CreateWorm" -> 2 * st.ord
    [] op \in {"MoveWormOnG", "Reconnect", "DeleteInteraction", "DeleteDeltaInteraction"} -> 2
    [] op \in {"AddInteraction", "AddDeltaInteraction"} -> 4
    [] op = "ChangeTauOnVertex" -> 2 * st.ord
    [] op = "ChangeRLoop" -> 2 * st.ord * NSites
    [] op \in {"ChangeMeasureFromGToW", "ChangeDeltaToContinuous", "ChangeContinuousToDelta"} -> st.ord
    [] op = "ChangeMeasureFromWToG" -> 2 * st.ord
    [] op = "JumpBackToOrder1" -> 4 * NSites
    [] op = "JumpToGGGammaG" -> 2 * st.ord
    [] op = "JumpToWWGammaW" -> st.ord * NSites
    [] OTHER -> 1
\* |m/n - 1/T| < 7 sigma, sigma^2 = (1/T)(1-1/T)/n, plus a little slack for
\* choices that are rejected because their momentum is taken
Near(m, n, T) == LET dev == m * T - n
                 IN dev * dev <= 49 * n * (T - 1) + (n * T) \div 2 + 9
\* ChangeRLoop proposes the same diagram from every vertex of a loop
Mult(op, st, a) == IF op = "ChangeRLoop" THEN Cardinality(Loop(st, a[1])) ELSE 1
NearM(m, n, T, k) == LET dev == m * T - n * k IN dev * dev <= 49 * n * (T - 1) * k + (n * T * k) \div 2 + 9
AvailBad(e) ==
  LET op == e.op
      H == [ks |-> {e.gk[1], e.gk[2]}, ts |-> {<<12345, 678>>}, rs |-> Sites,
            nv |-> {<<"n1", "n2">>}, ng |-> {<<"n3", "n4">>}, nw |-> {"n5"}]
      all == { x \in Props(op, s, H) : AcceptThr(s, x) > 0 /\ x.t # s }
      expect == { x.a : x \in all }
      C == e.c
      leads == [j \in DOMAIN C |-> Leads(op, s, C[j].st)]
      got == UNION { { x.a : x \in leads[j] } : j \in DOMAIN C }
  IN IF ~TopoOK(s) THEN {}
     ELSE IF \E j \in DOMAIN C : leads[j] = {} THEN { <<"C05", op, "proposal">> }
     ELSE If(expect = got, <<"C06", op, "choices", expect \ got, got \ expect>>)
          \cup UNION { LET a == (CHOOSE x \in leads[j] : TRUE).a
                       IN If(NearM(C[j].n, e.n, Total(op, s), Mult(op, s, a)),
                             <<"C06", op, "frequency", a, C[j].n, e.n, Total(op, s)>>) : j \in DOMAIN C }
          \cup If(\A b \in DOMAIN e.th : e.tn = 0 \/ Near(e.th[b], e.tn, 8), <<"C06", op, "times", e.th>>)
          \cup If(\A b \in DOMAIN e.kh : e.kn = 0 \/ Near(e.kh[b], e.kn, 8), <<"C06", op, "momenta", e.kh>>)

(* --- one step of the chain --------------------------------------------- *)
AllOps == IF CfgRec.g3 THEN Ops \cup Ops3 ELSE Ops
HopBad(e) ==
  LET S == e.slots
      Explains(sl) == { op \in AllOps : \A sub \in DOMAIN S[sl] : \A j \in DOMAIN S[sl][sub] : Leads(op, s, S[sl][sub][j]) # {} }
      Active(sl) == \E sub \in DOMAIN S[sl] : S[sl][sub] # <<>>
      act == { sl \in DOMAIN S : Active(sl) }
      \* updates whose every proposal would certainly have been seen
      sure == { op \in AllOps \cap {"CreateWorm", "DeleteWorm", "MoveWormOnW", "ChangeMeasureFromWToG", "ChangeTauOnVertex",
                          "JumpBackToOrder1", "JumpToOrder0", "JumpFromWWGammaWToW"} :
                LET H == [ks |-> {e.gk[1], e.gk[2]}, ts |-> {<<12345, 678>>}, rs |-> Sites,
                          nv |-> {<<"n1", "n2">>}, ng |-> {<<"n3", "n4">>}, nw |-> {"n5"}]
                IN Total(op, s) > 0 /\ Cardinality({ x.a : x \in { y \in Props(op, s, H) : AcceptThr(s, y) > 0 /\ y.t # s } }) >= Total(op, s) }
  IN IF ~TopoOK(s) THEN {}
     ELSE If(\A sl \in act : Explains(sl) # {}, <<"C06", "a slot of Hop mixes updates">>)
          \cup If(\A sl \in act : \A sm \in act : sl # sm => Explains(sl) \cup Explains(sm) = {} \/ Explains(sl) # Explains(sm) \/ Cardinality(Explains(sl)) > 1,
                  <<"C06", "an update is dispatched twice as often">>)
          \cup If(\A op \in sure : \E sl \in act : op \in Explains(sl), <<"C06", "an update is never dispatched", sure>>)
          \cup If(\A sl \in act : \A sub \in DOMAIN S[sl] : (\E op \in Explains(sl) : op \in sure) => S[sl][sub] # <<>>, <<"C06", "slot width">>)
          \cup If(e.badc = 0 /\ e.st57 = 0 /\ e.c57 = 57, <<"C05", "step counter">>)

(* --- resets, reloads and annealing leave the diagram as it is ----------- *)
Rename(st, m) ==
  LET N(x) == IF x \in DOMAIN m THEN m[x] ELSE "lost"
      Re(f, F(_)) == [y \in { N(x) : x \in DOMAIN f } |-> F(f[CHOOSE x \in DOMAIN f : N(x) = y])]
      V(r) == [r EXCEPT !.gi = N(@), !.go = N(@), !.w = N(@)]
      L(r) == [r EXCEPT !.i = N(@), !.o = N(@)]
  IN [st EXCEPT !.v = Re(@, V), !.g = Re(@, L), !.w = Re(@, L), !.worm = L(@), !.meas = N(@), !.host = N(@)]
SameBad(e, st) ==
  LET p == IF e.op = "reload" THEN "C12" ELSE "C14"
  IN IF ~TopoOK(st) THEN {}
     ELSE If(e.s.st = Rename(st, e.m), <<p, e.op, "changed the diagram">>)
          \cup If(e.ret, <<p, e.op, "refused">>)
          \cup StructureBad(e.s.st) \cup ExtrasBad(e.s.st, e.s.x) \cup CheckBad(e.s.st, e.s.x, e.chk)

\* a crash or an exception out of an update leaves every guarantee open
FailBad(e) == { <<p, "failure", e.op, e.msg>> : p \in {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C20"} }
              \cup (IF e.op = "reload" THEN { <<"C12", "failure", e.op, e.msg>> } ELSE {})
              \cup (IF e.op \in {"reset", "anneal"} THEN { <<"C14", "failure", e.op, e.msg>> } ELSE {})

Ev == Trace[i]
Post(e) == IF e.k \in {"init", "same", "anneal"} THEN e.s.st ELSE IF e.k = "op" /\ e.acc THEN e.c.st ELSE s
EvBad(e) ==
  CASE e.k = "init" -> StructureBad(e.s.st) \cup ExtrasBad(e.s.st, e.s.x) \cup CheckBad(e.s.st, e.s.x, e.chk)
    [] e.k = "op" -> OpBad(e) \cup StructureBad(e.c.st) \cup ExtrasBad(e.c.st, e.c.x) \cup CheckBad(e.c.st, e.c.x, e.chk)
    [] e.k = "avail" -> AvailBad(e)
    [] e.k = "hop" -> HopBad(e)
    [] e.k = "same" -> SameBad(e, s)
    [] e.k = "anneal" -> SameBad(e, e.prev)
    [] e.k = "spoil" -> SpoilBad(e)
    [] e.k = "fail" -> FailBad(e)
    [] OTHER -> {}

Init == i = 1 /\ s = [ord |-> -1]
Next == /\ i <= Len(Trace)
        /\ Report(EvBad(Ev))
        /\ s' = Post(Ev)
        /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
