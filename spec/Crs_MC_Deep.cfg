SPECIFICATION Spec
CONSTANTS
  Step = 1
  MaxSteps = 360
INVARIANTS TheZoneIsNear WestEndsMeet ZonesAreWhole SymmetricAboutItsMeridian SymmetricAboutTheEquator Conformal Emit
CHECK_DEADLOCK FALSE
