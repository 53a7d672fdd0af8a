------------------------------ MODULE PoolImpl ------------------------------
(* How the code keeps the pool: an array of all components and a count of   *)
(* the live ones; removing swaps the target with the last live one.  TLC    *)
(* checks that this implements Pool and that names number the live ones.    *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Cap
VARIABLES arr, name, n, holds, run
vars == <<arr, name, n, holds, run>>
Comps == 0..(Cap - 1)
Live == { arr[j] : j \in 0..(n - 1) }
P == INSTANCE Pool WITH live <- Live

Init == /\ arr = [j \in Comps |-> j] /\ name = [c \in Comps |-> c] /\ n = 0
        /\ holds = [c \in Comps |-> 0] /\ run = P!NoRun
Add == /\ n < Cap
       /\ name' = [name EXCEPT ![arr[n]] = n]
       /\ \E v \in {0, 1} : holds' = [holds EXCEPT ![arr[n]] = v]
       /\ n' = n + 1
       /\ run' = P!Cont(run, "add", Live)
       /\ UNCHANGED arr
Remove(c) == /\ c \in Live
             /\ LET k == name[c]
                    last == arr[n - 1]
                IN /\ arr' = [arr EXCEPT ![k] = last, ![n - 1] = c]
                   /\ name' = [[name EXCEPT ![c] = n - 1] EXCEPT ![last] = k]
             /\ n' = n - 1
             /\ run' = P!Cont(run, "remove", Live)
             /\ UNCHANGED holds
Recover(k) == /\ k \in 1..Len(run.prev)
              /\ n' = IF run.op = "remove" THEN n + k ELSE n - k
              /\ run' = P!NoRun
              /\ UNCHANGED <<arr, name, holds>>
Next == Add \/ (\E c \in Comps : Remove(c)) \/ (\E k \in 1..Cap : Recover(k))
Spec == Init /\ [][Next]_vars
Names == \A j \in 0..(n - 1) : name[arr[j]] = j
Perm == { arr[j] : j \in Comps } = Comps
Abstract == P!Spec
Bounded == P!Bounded
=============================================================================
