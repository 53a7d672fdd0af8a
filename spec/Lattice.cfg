SPECIFICATION Spec
CONSTANTS
  Sizes = {2, 3}
INVARIANTS ShellsOk Mutual MutualK Alike ThreeWays Neighbours AllBonds Isotropic
