SPECIFICATION Spec
CONSTANTS Files = {para, statis}
  Pieces = 3
  MaxSaves = 5
  MaxDeaths = 3
  InPlace = FALSE
INVARIANTS Whole Kept Settled Apart
PROPERTY Forward
CHECK_DEADLOCK FALSE
