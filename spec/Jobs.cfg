SPECIFICATION Spec
CONSTANTS Coordinators = 1
 Workers = 4
 CPU = 2
 MaxSignals = 2
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK WithinCPU OnlyOnRequest Stops AtMostOneLate LeavesNothing Complete NumbersOK
PROPERTY Leaves
