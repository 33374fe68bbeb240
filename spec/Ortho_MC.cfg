SPECIFICATION Spec
CONSTANTS
  W = 4
  H = 3
  MaxN = 3
INVARIANTS Tiles CentresInside CentresEven OwnGrid Valued MovesAlong OutlineIsFrame Emit
