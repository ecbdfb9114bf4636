SPECIFICATION Spec
CONSTANTS
  Tides = {"-0.5", "0", "0.7"}
  Heights = {"0", "1"}
  Rains = {"0", "0.000002"}
  Bounds <- QuickBounds
  MaxSteps = 3
INVARIANTS DepthLimited Order Table Level Extremes Moisture Flooded Between OneCurve Drier
PROPERTIES NoJump
CHECK_DEADLOCK FALSE
