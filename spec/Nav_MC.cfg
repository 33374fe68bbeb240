SPECIFICATION Spec
CONSTANTS
  Steps = {1, 3}
  MaxLines = 3
INVARIANTS EveryGoodLineOnce InOrder RecordedThere TimeIsTime Between NothingOutside Emit
