CONSTANTS P = 3
 Ks = {1, 2}
 Bins = {0, 1}
 Ws = {1, 2}
 Cap = 4
SPECIFICATION Spec
INVARIANT Sums
PROPERTY KeepsEstimates
CHECK_DEADLOCK FALSE
