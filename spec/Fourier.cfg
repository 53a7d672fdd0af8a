SPECIFICATION Spec
CONSTANTS
  MaxL = 4
  MaxNt = 3
INVARIANTS TableOk SpaceOk TimeOk
