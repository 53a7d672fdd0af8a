------------------------------ MODULE CoordTrace ------------------------------
(***************************************************************************)
(* Recordings of the real coordinator (dyson/main.py), started, killed and *)
(* started again in one directory.  The statistics the workers' files hold *)
(* are known, so the specification says of every round whether it          *)
(* succeeds, which orders it accepts and what weights it publishes; what   *)
(* it does to the three files the workers and a restart rely on is         *)
(* followed operation by operation.                                        *)
(*   weights are in units of 10^-5, at the positions the driver looks at   *)
(*   s.cand   what the statistics of the round may come to: records        *)
(*            [ok, os, op, sigma, polar, why]                              *)
(*   s.avg    running averages: [r, v]: the sum of the ratios, the average *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, s
D == INSTANCE Coordinator WITH MaxVer <- 0, MaxDeaths <- 0, pc <- 0, ver <- 0, inst <- 0, smooth <- 0, wf <- 0, pf <- 0, msg <- 0,
                               failed <- 0, said <- 0, saved <- 0, deaths <- 0, seen <- 0
Ev == Trace[i]
P1 == "C23"   \* collecting
P2 == "C24"   \* publishing
P3 == "C25"   \* averages and rolling back
---------------------------------------------------------------------------
(* Running averages *)
NoAvg == [r |-> 0, v |-> << >>]
Abs(x) == IF x < 0 THEN -x ELSE x
Div(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
\* d * r / n, r at most n, without large intermediate results
Part(d, r, n) == IF d >= 0 THEN (d \div n) * r + Div((d % n) * r, n) ELSE -((((-d) \div n) * r) + Div(((-d) % n) * r, n))
Merge(a, v, x) ==
  LET r == D!Ratio(v) IN
  IF a.r = 0 THEN [r |-> r, v |-> x]
  ELSE [r |-> a.r + r, v |-> [k \in DOMAIN x |-> a.v[k] + Part(x[k] - a.v[k], r, a.r + r)]]
Near(x, y, tol) == Len(x) = Len(y) /\ \A k \in DOMAIN x : Abs(x[k] - y[k]) <= tol
\* ratios are rounded to 1/5000, so that averages are known to a part in a thousand or so of what goes into them
Close(x, y) == Len(x) = Len(y) /\ \A k \in DOMAIN x : Abs(x[k] - y[k]) <= 4 + Abs(y[k]) \div 1000
\* the same up to a common factor, not far from real (pairs of real and imaginary parts, the first one the largest)
Similar(x, y) ==
  LET a == y[1] \div 64 b == y[2] \div 64 c == x[1] \div 64 d == x[2] \div 64
      dot == a * c + b * d cross == a * d - b * c n == a * a + b * b IN
  n = 0 \/ dot = 0 \/ (Len(x) = Len(y) /\ dot > 0 /\ 2 * Abs(cross) <= dot + 64
    \* x[k] * y[1] = y[k] * x[1]
    /\ \A k \in { k \in DOMAIN x : k > 2 /\ k % 2 = 1 } :
         /\ Abs((x[k] * a - x[k + 1] * b) - (y[k] * c - y[k + 1] * d)) <= 40 * (Abs(a) + Abs(b) + Abs(c) + Abs(d)) + (Abs(x[k]) + Abs(x[k + 1]))
         /\ Abs((x[k] * b + x[k + 1] * a) - (y[k] * d + y[k + 1] * c)) <= 40 * (Abs(a) + Abs(b) + Abs(c) + Abs(d)) + (Abs(x[k]) + Abs(x[k + 1])))
---------------------------------------------------------------------------
(* What a set of statistics comes to *)
Sum(S, f(_)) ==
  LET RECURSIVE g(_)
      g(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + g(T \ {x})
  IN g(S)
Usable(f) == f.readable /\ f.Sigma.there /\ f.Polar.there /\ (f.g3 => f.GammaG.there /\ f.GammaW.there)
\* files are added up only if normalized alike and of the same orders
Alike(f, g) == /\ f.Sigma.norm = g.Sigma.norm /\ f.Polar.norm = g.Polar.norm
               /\ Len(f.Sigma.a) = Len(g.Sigma.a) /\ Len(f.Polar.a) = Len(g.Polar.a)
               /\ f.g3 => \A what \in {"GammaG", "GammaW"} : f[what].norm = g[what].norm /\ f[what].n = g[what].n
\* the orders accepted: one after the other, as long as they were before or are smooth (one without any samples is not)
Accepted(h, before) ==
  LET n == Len(h.noisy) bad(k) == h.noisy[k] \/ h.hollow[k]
  IN CHOOSE o \in 0..n : /\ \A k \in 1..o : k <= before \/ ~bad(k)
                         /\ o < n => o + 1 > before /\ bad(o + 1)
Estimate(files, M, what, orders) ==
  LET acc == Sum(M, LAMBDA j : files[j][what].acc)
      norm == files[CHOOSE j \in M : TRUE][what].norm
      n == Len(files[CHOOSE j \in M : TRUE][what].a[1])
  IN [k \in 1..n |-> Div(norm * Sum(M, LAMBDA j : Sum(1..orders, LAMBDA o : files[j][what].a[o][k])), acc)]
Fails(why) == [ok |-> FALSE, why |-> why, os |-> -1, op |-> -1, sigma |-> << >>, polar |-> << >>, touch |-> FALSE, dies |-> FALSE, GammaG |-> << >>, GammaW |-> << >>]
\* r: the file that sets the normalization
Outcome(files, r, acc) ==
  LET M == { j \in DOMAIN files : Usable(files[j]) /\ Alike(files[j], files[r]) } IN
  IF ~D!Enough(Cardinality(M), Len(files)) THEN Fails("too few files")
  ELSE IF \E j \in M : files[j].nan THEN [Fails("not a number") EXCEPT !.dies = TRUE]
  ELSE IF Sum(M, LAMBDA j : files[j].Sigma.acc) = 0 \/ Sum(M, LAMBDA j : files[j].Polar.acc) = 0 THEN Fails("no samples")
  ELSE IF files[r].g3 /\ \E what \in {"GammaG", "GammaW"} : Sum(M, LAMBDA j : files[j][what].acc) = 0 THEN Fails("no samples")
  ELSE LET os == Accepted(files[r].Sigma, acc[1])
           op == Accepted(files[r].Polar, acc[2])
           G(what) == IF files[r].g3 THEN Estimate(files, M, what, 1) ELSE << >>
       IN IF os = 0 \/ op = 0 THEN Fails("no order accepted")
          ELSE IF \E j \in M : files[j].huge THEN [Fails("touches zero") EXCEPT !.touch = TRUE, !.os = os, !.op = op, !.GammaG = G("GammaG"), !.GammaW = G("GammaW")]
          ELSE [ok |-> TRUE, why |-> "", os |-> os, op |-> op, touch |-> FALSE, dies |-> FALSE, GammaG |-> G("GammaG"), GammaW |-> G("GammaW"),
                sigma |-> Estimate(files, M, "Sigma", os), polar |-> Estimate(files, M, "Polar", op)]
Outcomes(files, accs) ==
  LET refs == { j \in DOMAIN files : Usable(files[j]) } IN
  IF refs = {} THEN {Fails("no usable file")} ELSE { Outcome(files, r, a) : r \in refs, a \in accs }
---------------------------------------------------------------------------
(* All statistics added up into one file, on request (main.py -c) *)
Added(files, M, what) ==
  [acc |-> 1000 * Sum(M, LAMBDA j : files[j][what].acc), norm |-> files[CHOOSE j \in M : TRUE][what].norm,
   a |-> [o \in DOMAIN files[CHOOSE j \in M : TRUE][what].a |->
            [k \in DOMAIN files[CHOOSE j \in M : TRUE][what].a[o] |-> Sum(M, LAMBDA j : files[j][what].a[o][k])]]]
Same(x, y) == x.acc = y.acc /\ x.norm = y.norm /\ Len(x.a) = Len(y.a) /\ \A o \in DOMAIN x.a : Near(x.a[o], y.a[o], 2)
Together(files, r) == { j \in DOMAIN files : Usable(files[j]) /\ Alike(files[j], files[r]) }
TotalBad(t, files, trouble) ==
  LET refs == { j \in DOMAIN files : Usable(files[j]) }
      good == { r \in refs : D!Enough(Cardinality(Together(files, r)), Len(files)) }
      odd == \E j \in DOMAIN files : files[j].nan \/ files[j].huge
      none == \A r \in refs : \E what \in {"Sigma", "Polar"} : Sum(Together(files, r), LAMBDA j : files[j][what].acc) = 0
  IN IF odd \/ none THEN {}
     ELSE IF ~t.there THEN If(trouble \/ good # refs \/ refs = {}, <<P1, "the statistics are not added up">>)
     ELSE IF ~t.readable THEN {<<P1, "the total is incomplete", t.why>>}
     ELSE If(\E r \in good : \A what \in {"Sigma", "Polar"} : Same(t[what], Added(files, Together(files, r), what)), <<P1, "the total is not what the files hold", t>>)
---------------------------------------------------------------------------
NoParts == [GammaG |-> << >>, GammaW |-> << >>, GGGammaG |-> << >>, SigmaDeltaT_FirstOrder |-> << >>, SigmaSmoothT_FirstOrder |-> << >>, Polar_FirstOrder |-> << >>]
Start == [on |-> FALSE, mode |-> "", ver |-> 0, acc |-> {}, field |-> << >>, interval |-> << >>, inround |-> FALSE, cand |-> {}, done |-> {}, trouble |-> FALSE, signal |-> FALSE, reached |-> FALSE, limited |-> FALSE, fresh |-> TRUE, failed |-> FALSE, vertex |-> << >>, g3 |-> FALSE,
          parts |-> NoParts, sdt |-> NoAvg, sigma |-> NoAvg, polar |-> NoAvg, last |-> << >>, same |-> FALSE, blind |-> FALSE,
          stopped |-> FALSE, sumrule |-> FALSE, given |-> << >>, files |-> << >>, disk |-> [weights |-> << >>, para |-> << >>, message |-> << >>], said |-> 0, beta |-> 0]
Gone(d) == [weights |-> IF d.weights.readable THEN d.weights ELSE << >>, para |-> IF d.para.readable THEN d.para ELSE << >>, message |-> IF d.message.readable THEN d.message ELSE << >>]
DiskBad(d, why) == UNION { If(Gone(d)[f] = s.disk[f], <<P2, why, f, "is not what was last published", Gone(d)[f]>>) : f \in {"weights", "para", "message"} }
---------------------------------------------------------------------------
(* How a round is concluded *)
\* in memory: what the round has merged stays if it succeeded
Succeeded(t) == "weights" \in t.done \/ (\E c \in t.cand : c.ok)
\* what was tried to be saved shows what the round has come to, where it depends on which file is read first
Possible(t) == LET c == { c \in t.cand : c.ok <=> (t.reached \/ t.limited) } IN IF c = {} THEN t.cand ELSE c
Choice(t) == CHOOSE c \in Possible(t) : TRUE
Concluded(t) ==
  IF ~t.inround THEN t
  ELSE LET c == Choice(t) IN
    IF c.ok
    THEN [t EXCEPT !.inround = FALSE, !.same = FALSE, !.acc = IF t.mode = "mc" THEN { <<k.os, k.op>> : k \in { k \in Possible(t) : k.ok } } ELSE @,
                   !.sdt = IF t.parts.SigmaDeltaT_FirstOrder # << >> THEN Merge(t.sdt, t.ver, t.parts.SigmaDeltaT_FirstOrder) ELSE @,
                   !.polar = LET x == IF t.mode = "mc" THEN c.polar ELSE t.parts.Polar_FirstOrder IN IF x # << >> THEN Merge(t.polar, t.ver, x) ELSE @,
                   !.sigma = LET x == IF t.mode = "mc" THEN << >> ELSE t.parts.SigmaSmoothT_FirstOrder IN IF x # << >> THEN Merge(t.sigma, t.ver, x) ELSE @,
                   !.field = IF Abs(t.field[1]) > 671 THEN [k \in 1..4 |-> t.field[k] + t.interval[k]] ELSE @]
    ELSE [t EXCEPT !.inround = FALSE, !.same = TRUE, !.failed = TRUE,
                   !.acc = IF \E k \in Possible(t) : k.touch THEN { <<k.os, k.op>> : k \in { k \in Possible(t) : k.touch } } ELSE @,
                   !.interval = IF c.touch THEN [k \in 1..4 |-> t.interval[k] \div 2] ELSE @,
                   !.field = IF c.touch THEN [k \in 1..4 |-> t.field[k] - t.interval[k] \div 2] ELSE @]
\* a round that is over, one way or the other; last: whether it had to be complete
RoundBad(t) ==
  IF ~t.inround \/ t.trouble \/ t.signal THEN {}
  ELSE IF (\A c \in t.cand : c.ok) /\ t.done # {"weights", "para", "message"} THEN {<<P2, "a round that succeeds leaves out something", t.done, t.ver>>}
            \cup If(t.done # {} \/ ~t.failed, <<P3, "after a failed round one that succeeds does not", t.ver>>) ELSE {}
NewRound(t, cand) == [t EXCEPT !.inround = TRUE, !.ver = @ + 1, !.cand = cand, !.done = {}, !.trouble = FALSE, !.reached = FALSE, !.limited = FALSE, !.parts = NoParts,
                               !.last = t.parts.SigmaDeltaT_FirstOrder]
Unknown == [ok |-> TRUE, why |-> "", os |-> -1, op |-> -1, touch |-> FALSE, dies |-> FALSE, GammaG |-> << >>, GammaW |-> << >>, sigma |-> << >>, polar |-> << >>]
---------------------------------------------------------------------------
(* What each file has to be when it appears *)
WeightsBad(c) ==
  LET t == s
      mc == t.mode = "mc"
      ok == { k \in t.cand : k.ok }
      ks == { k \in ok : mc => Near(c.sigma, k.sigma, 2) }
      sdtx == IF t.parts.SigmaDeltaT_FirstOrder = << >> THEN << >> ELSE Merge(t.sdt, t.ver, t.parts.SigmaDeltaT_FirstOrder).v
      sigx == IF mc \/ t.parts.SigmaSmoothT_FirstOrder = << >> THEN << >> ELSE Merge(t.sigma, t.ver, t.parts.SigmaSmoothT_FirstOrder).v
      Agrees(p) == IF t.sumrule THEN Similar(c.polar, p) ELSE Close(c.polar, p)
      Pol(k) == IF mc THEN Merge(t.polar, t.ver, k.polar).v ELSE IF t.parts.Polar_FirstOrder = << >> THEN c.polar ELSE Merge(t.polar, t.ver, t.parts.Polar_FirstOrder).v
  IN IF ok = {} THEN {<<P2, "a failed round publishes weights", { k.why : k \in t.cand }>>}
     ELSE IF ks = {} THEN {<<P1, "the self-energy is not what was collected", c.sigma, { k.sigma : k \in ok }>>}
     ELSE If(\E k \in ks : Agrees(Pol(k)), <<P1, "the polarization is not the average of what was collected", c.polar, { Pol(k) : k \in ks }>>)
          \cup If(t.polar.r = 0 \/ \E k \in ks : Agrees(Pol(k)), <<P3, "the polarization is not the average over the rounds that succeeded", c.polar, { Pol(k) : k \in ks }>>)
          \cup If(sdtx = << >> \/ Close(c.sdt, sdtx), <<P3, "the instantaneous self-energy is not the average over the rounds that succeeded", c.sdt, sdtx>>)
          \cup If(sigx = << >> \/ Close(c.sigma, sigx), <<P3, "the self-energy is not the average over the rounds that succeeded", c.sigma, sigx>>)
          \cup If(t.sumrule => Abs(c.chi[1] - 75000) <= 105 /\ Abs(c.chi[2]) <= 105, <<P2, "the sum rule is not obeyed", c.chi>>)
          \cup If(c.finite, <<P2, "weights that are not numbers are published">>)
          \cup If({"G.SmoothT", "W.SmoothT", "W.DeltaT", "Sigma.SmoothT", "SigmaDeltaT.DeltaT", "Polar.SmoothT"} \cup (IF t.g3 THEN {"GGGammaG.SmoothT", "WWGammaW.SmoothT", "WWGammaW.RSqueeze", "WWGammaW.TauFlag"} ELSE {}) \subseteq Range(c.kinds), <<P2, "the weight file is incomplete", c.kinds>>)
ParaBad(c) ==
  LET p == c.para IN
  If(p.ver = s.ver, <<P2, "parameters saved with a version that is not the round's", p.ver, s.ver>>)
  \cup If(s.mode # "mc" \/ (\E k \in s.cand : k.ok /\ k.os = p.os /\ k.op = p.op), <<P1, "orders accepted", p.os, p.op, { <<k.os, k.op>> : k \in s.cand }>>)
  \cup If(Near(p.field, s.field, 12) /\ Near(p.interval, s.interval, 2), <<P3, "the external field is not what the rounds so far make it", p.field, p.interval, s.field, s.interval>>)
MessageBad(c) ==
  If({"weights", "para"} \subseteq s.done, <<P2, "a message without saved weights and parameters", s.done, c.ver>>)
  \cup If(c.ver = s.ver, <<P2, "a message with a version that is not the round's", c.ver, s.ver>>)
  \cup If(c.ver > s.said, <<P2, "a message that is not newer than the one before", c.ver, s.said>>)
  \cup If(Abs(c.factor - D!Squeeze(s.ver)) <= 2, <<P2, "the factor for the workers' statistics", c.factor>>)
  \cup If(c.beta = s.beta, <<P2, "a message with another temperature", c.beta>>)
\* parameters which are not there are saved as they were given when the coordinator starts over what is there
First(e) == s.done = {} /\ s.parts = NoParts /\ (s.inround => s.fresh) /\ e.file = "para" /\ e.way = "rename" /\ e.c.readable /\ s.disk.para = << >>
OpBad(e) ==
  IF ~s.on THEN {}
  ELSE IF First(e) THEN If(e.c.para = s.given, <<P2, "parameters saved at the start are not those given", e.c.para>>)
  ELSE IF e.way # "rename" THEN {<<P2, e.file, "is changed in place", e.way>>}
  ELSE IF ~e.c.readable THEN {<<P2, e.file, "incomplete when it appears", e.c.why>>}
  ELSE If(s.inround, <<P2, e.file, "is published outside of a round">>)
       \cup (CASE e.file = "weights" -> WeightsBad(e.c) [] e.file = "para" -> ParaBad(e.c) [] OTHER -> MessageBad(e.c))
       \cup If(\A k \in DOMAIN e.solves : e.solves[k] <= 2, <<P2, "the weights published together do not belong together (propagator, interaction, bare interaction)", e.solves>>)
       \cup (IF e.file # "message" THEN If("message" \notin s.done, <<P2, e.file, "is published after the message">>) ELSE {})
OpNext(e) ==
  IF ~s.on \/ e.way # "rename" \/ ~e.c.readable THEN s
  ELSE IF First(e) THEN [s EXCEPT !.disk[e.file] = e.c, !.fresh = FALSE]
  ELSE LET kept == IF e.file = "weights" /\ s.mode = "mc"
                   THEN LET ks == { k \in s.cand : k.ok /\ Near(e.c.sigma, k.sigma, 2) } IN IF ks = {} THEN s.cand ELSE ks
                   ELSE IF e.file = "para" /\ s.mode = "mc"
                   THEN LET ks == { k \in s.cand : k.ok /\ k.os = e.c.para.os /\ k.op = e.c.para.op } IN IF ks = {} THEN s.cand ELSE ks
                   ELSE s.cand
       IN [s EXCEPT !.done = @ \cup {e.file}, !.reached = TRUE, !.disk[e.file] = e.c, !.cand = kept, !.said = IF e.file = "message" THEN e.c.ver ELSE @]
---------------------------------------------------------------------------
BeginBad(e) == DiskBad(e.disk, "a start")
BeginNext(e) ==
  [Start EXCEPT !.on = TRUE, !.mode = e.mode, !.ver = D!Resumes(e.para.ver), !.acc = {<<e.para.os, e.para.op>>}, !.field = e.para.field, !.interval = e.para.interval,
                !.disk = s.disk, !.said = s.said, !.beta = e.beta, !.blind = ~e.watch, !.given = e.para, !.g3 = e.g3, !.sumrule = e.sumrule]
\* a look at the instantaneous self-energy begins a round where nothing else does
PartBad(e) ==
  IF e.resumed # << >> /\ ~Near(e.v, e.resumed, 1) THEN {<<P2, "a restart does not go on from what was left", e.what, e.v, e.resumed>>}
  ELSE IF e.what = "SigmaDeltaT_FirstOrder" THEN
    (IF s.mode = "mc" THEN If(~s.same \/ s.last = << >> \/ Near(e.v, s.last, 1), <<P3, "after a failed round the propagator is not what it was", e.v, s.last>>) ELSE RoundBad(s))
  ELSE IF e.what \in {"GammaG", "GammaW"} THEN If(~s.inround \/ \E c \in s.cand : Near(e.v, c[e.what], 2), <<P1, "a three-point function is not what was collected", e.what, e.v, { c[e.what] : c \in s.cand }>>)
  ELSE IF e.what = "GGGammaG" THEN If(~s.same \/ s.vertex = << >> \/ Near(e.v, s.vertex, 1), <<P3, "after a failed round the three-point vertex is not what it was", e.v, s.vertex>>)
  ELSE {}
PartNext(e) ==
  IF e.what = "SigmaDeltaT_FirstOrder" /\ s.mode # "mc"
  THEN LET t == NewRound(Concluded(s), {Unknown}) IN [t EXCEPT !.fresh = FALSE, !.parts[e.what] = e.v]
  ELSE [s EXCEPT !.parts[e.what] = e.v, !.vertex = IF e.what = "GGGammaG" THEN e.v ELSE @]
EndBad(t) ==
  IF ~t.inround /\ ~t.trouble /\ ~t.signal /\ ~t.stopped /\ t.mode \in {"new", "dyson"} THEN {<<P2, "the coordinator gives up before its first round">>}
  ELSE IF ~t.inround \/ t.trouble \/ t.mode = "total" THEN {}
  ELSE IF t.signal THEN If({"weights", "para"} \subseteq t.done, <<P2, "a request to stop cuts a save short", t.done>>)
  ELSE IF \E c \in t.cand : c.dies THEN {} ELSE {<<P2, "the coordinator gives up", { c.why : c \in t.cand }>>}
Bad(e) ==
  CASE e.k = "begin" -> BeginBad(e)
    [] e.k = "round" -> RoundBad(s) \cup If(~s.signal, <<P2, "a request to stop is lost">>)
    [] e.k = "stop" -> RoundBad(s)
    [] e.k = "part" -> IF s.on THEN PartBad(e) ELSE {}
    [] e.k = "op" -> OpBad(e)
    [] e.k = "exit" -> EndBad(s)
    [] e.k = "over" -> DiskBad(e.disk, "a stop") \cup (IF s.mode = "total" THEN TotalBad(e.total, s.files, s.trouble \/ e.status # 0) ELSE {})
    [] e.k = "died" -> {<<P2, "died", e.rc>>}
    [] OTHER -> {}
After(e) ==
  CASE e.k = "begin" -> BeginNext(e)
    [] e.k = "round" -> LET t == Concluded(s) IN [NewRound(t, Outcomes(e.files, t.acc)) EXCEPT !.trouble = e.limit > 0, !.limited = e.limit > 0, !.fresh = s.fresh /\ ~s.inround, !.files = e.files]
    [] e.k = "stop" -> [Concluded(s) EXCEPT !.inround = FALSE, !.stopped = TRUE]
    [] e.k = "part" -> IF s.on THEN PartNext(e) ELSE s
    [] e.k = "op" -> OpNext(e)
    [] e.k = "touch" -> [s EXCEPT !.cand = {[Fails("touches zero") EXCEPT !.touch = TRUE]}]
    [] e.k = "fault" -> [s EXCEPT !.trouble = TRUE, !.reached = @ \/ e.file # "other"]
    [] e.k = "signal" -> [s EXCEPT !.signal = TRUE, !.reached = @ \/ e.file # "other"]
    [] e.k \in {"killed", "exit"} -> [s EXCEPT !.on = FALSE]
    [] OTHER -> s
Init == i = 1 /\ s = Start
Next == i <= Len(Trace) /\ i' = i + 1 /\ ReportAt(i, Bad(Ev)) /\ s' = After(Ev)
Spec == Init /\ [][Next]_<<i, s>>
=============================================================================
