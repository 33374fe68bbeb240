SPECIFICATION Spec
CONSTANTS
  Depth = 3
INVARIANTS LastWriteStands ImagesCameFromWrites NothingFromNothing Emit
PROPERTIES RefusedLeavesNoTrace
