SPECIFICATION Spec
CONSTANTS MaxK = 3
 MaxOrd = 2
 LX = 1
 NTimes = 1
 G3 = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Topology Momenta Spins Sectors Signs Local Reciprocal Injective Skeleton
