CONSTANTS
  MaxNt = 4
  Span = {0, 1, 3}
SPECIFICATION Spec
INVARIANT FoldOk
CHECK_DEADLOCK FALSE
