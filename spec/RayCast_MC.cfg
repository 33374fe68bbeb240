SPECIFICATION Spec
CONSTANTS
  Heights = {0, 2, 6}
  Steps = {4, 12}
INVARIANTS AlwaysHits OnTheRay OnTerrain First Vertical Emit
