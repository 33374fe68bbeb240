SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Ids = {1, 2, 3}
INVARIANTS OwnCalculator Emit
PROPERTIES OneBandChanges AddKeeps
