SPECIFICATION Spec
CONSTANTS
  Yaws = {"0", "1", "-1", "1/2", "-3"}
  Tilts = {"0", "1/10", "-1/7"}
  Steps = 6
INVARIANTS OneStepWhenVertical Converges Solvable
