SPECIFICATION Spec
CONSTANTS
  Angles = {"0", "1/20"}
  Bores = {"0", "-1/30"}
  Ords = {"rpy", "pyr"}
  MaxPictures = 2
INVARIANTS Returns Distinct Looks IsPlatform Emit
