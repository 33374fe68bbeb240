SPECIFICATION Spec
CONSTANTS
  H = {"A", "B"}
  Depth = 3
INVARIANTS MemoryIsLastPut FilesAreLastGiven FileBandsShowTheirFiles Emit
PROPERTIES PuttingDoesNotWrite OneAtATime
