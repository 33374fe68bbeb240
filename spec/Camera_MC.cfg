SPECIFICATION Spec
CONSTANTS
  Tans = {"0", "1", "1/2", "-1/3", "-3"}
  Steps = 2
INVARIANTS SamePixel AxisAtCentre PixelField Undistorted Radial Geo Emit
