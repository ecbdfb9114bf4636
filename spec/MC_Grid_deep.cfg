SPECIFICATION Spec
CONSTANTS
  Angles = {0, 17, 45, 90, 100, 135, 180, 200, 225, 270, 300, 359, 1, 30, 60, 89, 91, 120, 150, 179, 181, 269, 271, 330}
  Sizes = {"0.5", "1", "20"}
  MaxSteps = 12
INVARIANTS Metric Orient Length Restored Project
CHECK_DEADLOCK FALSE
