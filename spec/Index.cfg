SPECIFICATION Spec
CONSTANTS MaxL = 3 MaxSub = 2 MaxNt = 4
INVARIANTS Invariant OneToOne Periodic BinRange Inverse
CHECK_DEADLOCK FALSE
