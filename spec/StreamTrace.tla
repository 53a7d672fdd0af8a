---------------------------- MODULE StreamTrace -----------------------------
(***************************************************************************)
(* Random streams.  A generator is in a state named by where it came from: *)
(* its seed and the draws taken since.  What is drawn is an unknown        *)
(* function of that state; every recorded draw must agree with what the    *)
(* same state gave before, in whichever generator, and lie in its range.   *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES i, at, kept, known
\* at: generator -> state name; kept: saved text -> state name;
\* known: <<state name, draw>> -> <<result, next state name>>
vars == <<i, at, kept, known>>
Ev == Trace[i]
Draw(e) == IF e.k = "urn" THEN <<"urn">> ELSE <<"irn", e.a, e.b>>
Got(e) == IF e.k = "urn" THEN <<e.h, e.l>> ELSE <<e.v>>
Put(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
In(e) == IF e.k = "urn" THEN e.h \in 0..65535 /\ e.l \in 0..65535 ELSE e.a <= e.v /\ e.v <= e.b
Near(m, n, T) == LET dev == m * T - n IN dev * dev <= 64 * n * (T - 1) + 9
Bad(e) ==
  CASE e.k \in {"urn", "irn"} ->
         LET key == <<at[e.g], Draw(e)>>
         IN If(In(e), <<"C18", "out of range", e.k>>)
            \cup If(key \in DOMAIN known => known[key][1] = Got(e), <<"C18", "the stream did not continue", e.k, e.g>>)
    [] e.k = "edge" -> If(e.h \in 0..65535, <<"C18", "a uniform real left [0,1)", e.h>>)
    [] e.k = "iedge" -> If(e.st = 0 /\ e.a <= e.v /\ e.v <= e.b, <<"C18", "an integer draw left its interval", e.a, e.b, e.v, e.st>>)
    [] e.k = "reach" -> If(e.out = 0, <<"C18", "out of range">>)
                        \cup If(\A j \in DOMAIN e.cnt : e.cnt[j] > 0, <<"C18", "a value is never drawn", e.w>>)
                        \cup If(\A j \in DOMAIN e.cnt : Near(e.cnt[j], e.n, e.w), <<"C18", "not uniform", e.w, e.cnt>>)
    [] e.k = "died" -> {<<"C18", "the code crashed">>}
    [] OTHER -> {}
Step(e) ==
  CASE e.k = "seed" -> at' = Put(at, e.g, <<"seed", e.v>>) /\ UNCHANGED <<kept, known>>
    [] e.k = "save" -> kept' = Put(kept, e.s, at[e.g]) /\ UNCHANGED <<at, known>>
    [] e.k = "load" -> at' = Put(at, e.g, kept[e.s]) /\ UNCHANGED <<kept, known>>
    [] e.k \in {"urn", "irn"} ->
         LET key == <<at[e.g], Draw(e)>>
         IN IF key \in DOMAIN known
            THEN at' = Put(at, e.g, known[key][2]) /\ UNCHANGED <<kept, known>>
            ELSE /\ known' = Put(known, key, <<Got(e), <<"after", i>>>>)
                 /\ at' = Put(at, e.g, <<"after", i>>)
                 /\ UNCHANGED kept
    [] OTHER -> UNCHANGED <<at, kept, known>>
Init == i = 1 /\ at = <<>> /\ kept = <<>> /\ known = <<>>
Next == /\ i <= Len(Trace)
        /\ Step(Ev)
        /\ i' = i + 1
        /\ ReportAt(i, Bad(Ev))
Spec == Init /\ [][Next]_vars
=============================================================================
