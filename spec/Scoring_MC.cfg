SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxOps = 3
INVARIANTS EveryChipItsAnswer NamedClass LabelsNameClasses FittedIsCompiled AllAlike Emit
CHECK_DEADLOCK FALSE
