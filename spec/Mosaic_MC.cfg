SPECIFICATION Spec
CONSTANTS
  Rows = 2
  Cols = 2
  Scores = {0, 1, 2}
  Chips0 = 3
  CY = 1
  CX = 2
INVARIANTS HighestPainted OnlyFromListing Emit
