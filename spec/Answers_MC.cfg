SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Enough = 6
INVARIANTS Sound Alone Emit
CHECK_DEADLOCK FALSE
