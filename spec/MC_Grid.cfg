SPECIFICATION Spec
CONSTANTS
  Angles = {0, 17, 45, 90, 100, 135, 180, 200, 225, 270, 300, 359}
  Sizes = {"0.5", "1", "20"}
  MaxSteps = 6
INVARIANTS Metric Orient Length Restored Project
CHECK_DEADLOCK FALSE
