SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 4}
  N = 3
INVARIANTS MaskedDoNotCount CentredDeviations SymmetricNonnegative RxAddsUp RxNonnegative AceBounds SamScale InverseInverts Emit
