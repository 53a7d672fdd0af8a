CONSTANTS
  MaxNt = 4
  Span = {0, 1, 2, 5}
SPECIFICATION Spec
INVARIANTS PeriodOk LoopOk
CHECK_DEADLOCK FALSE
