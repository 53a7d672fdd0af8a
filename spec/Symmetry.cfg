SPECIFICATION Spec
CONSTANTS
  Sizes <- SizesDef
  Names = {"Square", "Triangular", "none"}
  MaxNt = 3
INVARIANTS Partition ExchangeOk TausOk HomesOk ShareOk
