SPECIFICATION Spec
CONSTANTS
  MaxLen = 14
  Enough = 7
INVARIANTS Sound Alone Emit
CHECK_DEADLOCK FALSE
