SPECIFICATION Spec
CONSTANTS
  H = {"A", "B"}
  Depth = 9
INVARIANTS MemoryIsLastPut FilesAreLastGiven FileBandsShowTheirFiles Emit
PROPERTIES PuttingDoesNotWrite OneAtATime
