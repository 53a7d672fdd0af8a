SPECIFICATION Spec
CONSTANTS MaxInt = 2
 MaxNow = 4
 MaxBlocks = 4
INVARIANTS Whole Prompt Caught Stops
PROPERTIES NotEarly
CHECK_DEADLOCK FALSE
