----------------------------- MODULE Interrupt ------------------------------
(***************************************************************************)
(* Termination requests and protected sections.  A handler is installed    *)
(* ("C") or removed ("X"); it delays ("D") and resumes ("R"); requests are *)
(* "T" (SIGTERM) and "I" (SIGINT).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Sig(o) == IF o = "T" THEN 15 ELSE 2
\* installed, inside a protected section, requests waiting, who ended the process
Start == [on |-> TRUE, delay |-> FALSE, wait |-> {}, dead |-> {}]
Step(s, o) ==
  IF s.dead # {} THEN s
  ELSE CASE o \in {"T", "I"} -> IF s.on /\ s.delay THEN [s EXCEPT !.wait = @ \cup {Sig(o)}]
                                ELSE [s EXCEPT !.dead = {Sig(o)}]
         [] o = "D" -> IF s.on THEN [s EXCEPT !.delay = TRUE] ELSE s
         [] o = "R" -> IF ~s.on THEN s
                       ELSE IF s.delay /\ s.wait # {} THEN [s EXCEPT !.dead = s.wait, !.wait = {}]
                       ELSE [s EXCEPT !.delay = FALSE]
         [] o = "X" -> [s EXCEPT !.on = FALSE, !.delay = FALSE, !.wait = {}]
         [] o = "C" -> IF s.on THEN s ELSE Start
         [] OTHER -> s
Says(s) == IF ~s.on THEN "-" ELSE IF s.delay THEN "d" ELSE "n"
CONSTANT MaxLen
VARIABLES s, h
vars == <<s, h>>
Ops == {"D", "R", "T", "I", "X", "C"}
Init == s = Start /\ h = << >>
Next == Len(h) < MaxLen /\ \E o \in Ops : s' = Step(s, o) /\ h' = Append(h, o)
Spec == Init /\ [][Next]_vars
\* never stopped inside a protected section except by leaving it
Protected == [][(s.on /\ s.delay /\ s'.dead # s.dead) => h'[Len(h')] = "R"]_vars
\* a request is never lost: it waits, or the process has ended
NeverLost == (s.dead = {} /\ s.on /\ \A j \in DOMAIN h : h[j] # "X") =>
                 \A j \in DOMAIN h : h[j] \in {"T", "I"} => Sig(h[j]) \in s.wait
WaitOnlyInside == s.wait # {} => s.on /\ s.delay /\ s.dead = {}
Immediate == [][(s.dead = {} /\ ~(s.on /\ s.delay) /\ h'[Len(h')] \in {"T", "I"}) => s'.dead = {Sig(h'[Len(h')])}]_vars
=============================================================================
