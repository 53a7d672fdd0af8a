SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANTS NeverLost WaitOnlyInside
PROPERTIES Protected Immediate
CHECK_DEADLOCK FALSE
