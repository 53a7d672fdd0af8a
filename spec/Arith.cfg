SPECIFICATION Spec
CONSTANTS MaxK = 10000
 Small = 6
INVARIANT Laws
CHECK_DEADLOCK FALSE
