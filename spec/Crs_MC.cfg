SPECIFICATION Spec
CONSTANTS
  Step = 9
  MaxSteps = 40
INVARIANTS TheZoneIsNear WestEndsMeet ZonesAreWhole SymmetricAboutItsMeridian SymmetricAboutTheEquator Conformal Emit
CHECK_DEADLOCK FALSE
