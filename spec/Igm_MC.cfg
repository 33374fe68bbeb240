SPECIFICATION Spec
CONSTANTS
  Tiny = "1/1000000"
INVARIANTS StoredPixelWins InsideTheGrid
