SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Vals = {0, 2}
  Bad = 9
INVARIANTS TheLastGiven MarkedOnlyWhereNodata UnmarkedIsStored FlatIsMean ConstantKept MeanAmong Emit
