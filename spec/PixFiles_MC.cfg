SPECIFICATION Spec
CONSTANTS
  Images = 3
  Cameras = 2
  MaxBlank = 2
INVARIANTS EveryImageOnce OwnNumbers Emit
