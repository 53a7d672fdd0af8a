-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The component pool (diag::Bundle): which components are live, and what  *)
(* each of them holds.  Which name (position) a live component has is left *)
(* open: names must be a numbering of the live components.                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Cap, Comps
VARIABLES live, holds, run
\* run: [op, prev]: the consecutive adds or removes that can still be undone,
\* as the sets that were live before each of them
vars == <<live, holds, run>>

NoRun == [op |-> "none", prev |-> <<>>]
Cont(r, op, S) == IF r.op = op THEN [op |-> op, prev |-> Append(r.prev, S)] ELSE [op |-> op, prev |-> <<S>>]
\* the effects, as functions, so that recordings can be judged by them
CanAdd(S, c) == Cardinality(S) < Cap /\ c \notin S
CanRemove(S, c) == c \in S
Undone(r, k) == r.prev[Len(r.prev) - k + 1]

Init == live = {} /\ holds = [c \in Comps |-> 0] /\ run = NoRun
Add(c) == /\ CanAdd(live, c)
          /\ live' = live \cup {c}
          /\ \E v \in {0, 1} : holds' = [holds EXCEPT ![c] = v]
          /\ run' = Cont(run, "add", live)
Remove(c) == /\ CanRemove(live, c)
             /\ live' = live \ {c}
             /\ UNCHANGED holds
             /\ run' = Cont(run, "remove", live)
Recover(k) == /\ k \in 1..Len(run.prev)
              /\ live' = Undone(run, k)
              /\ UNCHANGED holds
              /\ run' = NoRun
Next == \/ \E c \in Comps : Add(c) \/ Remove(c)
        \/ \E k \in 1..Cap : Recover(k)
Spec == Init /\ [][Next]_vars

Bounded == Cardinality(live) <= Cap
\* a live component keeps what it holds while others come and go
Kept == [][\A c \in live \cap live' : holds'[c] = holds[c]]_vars
=============================================================================
