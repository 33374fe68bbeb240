SPECIFICATION Spec
CONSTANTS
  H = {"A", "B"}
  P = {"p", "q"}
  NB = 2
  Depth = 5
INVARIANTS LastSetWins NothingLoaded FileIsLastWrite ReadableMeansFile Emit
PROPERTIES DiskOnlyByWrite OneObjectAtATime OneBandAtATime
