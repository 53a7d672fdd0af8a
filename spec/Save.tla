-------------------------------- MODULE Save --------------------------------
(***************************************************************************)
(* Saving a worker's two files by writing each under another name and      *)
(* renaming it.  The process may die at any moment, in the middle of a     *)
(* write too, and any call may fail; what died is started again and finds  *)
(* whatever lies about.                                                    *)
(* Checked exhaustively: a file is always complete, holds the last save    *)
(* that came back or a later one, and no version is lost.                  *)
(***************************************************************************)
EXTENDS FileSystem, TLC
CONSTANTS Files, Pieces, MaxSaves, MaxDeaths, InPlace
VARIABLES fs, pc, ver, done, deaths
vars == <<fs, pc, ver, done, deaths>>
None == "none"
Idle == [f |-> None, step |-> 0, ino |-> 0]
\* files are saved in this order
Order == CHOOSE s \in [1..Cardinality(Files) -> Files] : \A a, b \in DOMAIN s : a # b => s[a] # s[b]
Next1(f) == LET j == CHOOSE j \in DOMAIN Order : Order[j] = f IN IF j = Len(Order) THEN None ELSE Order[j + 1]
Tmp(f) == IF InPlace THEN f ELSE <<"tmp", f>>
\* version v of file f, whole
Complete(f, v) == [j \in 1..Pieces |-> [id |-> <<f, v, j>>, from |-> 0, len |-> 2]]
Free == CHOOSE n \in 1..(2 * Cardinality(Files) + 2) : n \notin { fs.dir[x] : x \in DOMAIN fs.dir }
Init == /\ fs = [dir |-> [f \in Files |-> CHOOSE n \in 1..Len(Order) : Order[n] = f], data |-> [n \in 1..Len(Order) |-> Complete(Order[n], 0)]]
        /\ pc = Idle /\ ver = 0 /\ done = 0 /\ deaths = 0
Begin == pc = Idle /\ ver < MaxSaves /\ ver' = ver + 1 /\ pc' = [f |-> Order[1], step |-> 0, ino |-> 0] /\ UNCHANGED <<fs, done, deaths>>
\* open, pieces, rename
Step ==
  /\ pc # Idle
  /\ LET f == pc.f IN
     \/ pc.step = 0 /\ fs' = Open(fs, Tmp(f), Free, TRUE, TRUE) /\ pc' = [pc EXCEPT !.step = 1, !.ino = fs'.dir[Tmp(f)]] /\ UNCHANGED done
     \/ pc.step \in 1..Pieces /\ fs' = Write(fs, pc.ino, <<f, ver, pc.step>>, 2 * (pc.step - 1), 2) /\ pc' = [pc EXCEPT !.step = @ + 1] /\ UNCHANGED done
     \/ /\ pc.step = Pieces + 1
        /\ fs' = Rename(fs, Tmp(f), f)
        /\ IF Next1(f) = None THEN pc' = Idle /\ done' = ver ELSE pc' = [f |-> Next1(f), step |-> 0, ino |-> 0] /\ UNCHANGED done
  /\ UNCHANGED <<ver, deaths>>
Torn == IF pc # Idle /\ pc.step \in 1..Pieces THEN {fs, Write(fs, pc.ino, <<pc.f, ver, pc.step>>, 2 * (pc.step - 1), 1)} ELSE {fs}
\* killed, or a call failed and the save was given up
Die == deaths < MaxDeaths /\ pc # Idle /\ fs' \in Torn /\ pc' = Idle /\ deaths' = deaths + 1 /\ UNCHANGED <<ver, done>>
Next == Begin \/ Step \/ Die
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Version(f) == IF \E v \in 0..ver : Holds(fs, f) = Complete(f, v) THEN CHOOSE v \in 0..ver : Holds(fs, f) = Complete(f, v) ELSE 0 - 1
Whole == \A f \in Files : Has(fs, f) /\ Version(f) >= 0
Kept == \A f \in Files : Version(f) >= done
Settled == pc = Idle /\ done = ver => \A f \in Files : Version(f) = ver
Apart == \A a, b \in DOMAIN fs.dir : a # b => fs.dir[a] # fs.dir[b]
Forward == [][\A f \in Files : Version(f)' >= Version(f)]_vars
=============================================================================
