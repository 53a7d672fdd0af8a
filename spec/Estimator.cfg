SPECIFICATION Spec
CONSTANTS Size = 8
 MaxCalls = 90
 Samples = {0, 3}
CONSTRAINT Bound
INVARIANTS Exact History
PROPERTIES SnapKeepsMean SqueezeKeepsMean
CHECK_DEADLOCK FALSE
