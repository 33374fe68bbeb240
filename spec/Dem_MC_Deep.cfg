SPECIFICATION Spec
CONSTANTS
  Others = {2, 6}
  Heights = {0, 1, 5}
  Depth = 3
INVARIANTS InRange AtSamples WeightsSum NearestIsACell InExtremes Local PredsAccept PredsReject PredsMissing ToldIsMissing Undone MissingKept Emit
