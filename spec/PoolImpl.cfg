SPECIFICATION Spec
CONSTANT Cap = 3
INVARIANTS Names Perm Bounded
PROPERTY Abstract
CHECK_DEADLOCK FALSE
