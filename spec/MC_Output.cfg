SPECIFICATION Spec
CONSTANTS
  MaxT = 6
  Intervals = {1, 2, 3}
  Every = {0, 1, 2, 4}
  Buffered = FALSE
  Dump = FALSE
INVARIANTS Complete Resumable Ordered Tiles Recent
PROPERTIES Stops
CHECK_DEADLOCK FALSE
