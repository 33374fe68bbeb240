SPECIFICATION Spec
CONSTANTS
  MaxHead = 3
  MaxRows = 3
INVARIANTS EveryRowOnce InOrder Emit
