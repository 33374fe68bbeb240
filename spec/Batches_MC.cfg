SPECIFICATION Spec
CONSTANTS
  MaxN = 24
  MaxB = 6
INVARIANTS ProbesSuffice FewAreSafe TwoAndOne Emit
CHECK_DEADLOCK FALSE
