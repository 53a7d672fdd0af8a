SPECIFICATION Spec
CONSTANTS Ints = {0, 1, 2, 3}
 MaxNow = 6
INVARIANT Sane
PROPERTIES Monotone Steady
CHECK_DEADLOCK FALSE
