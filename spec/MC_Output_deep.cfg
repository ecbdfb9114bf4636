SPECIFICATION Spec
CONSTANTS
  MaxT = 14
  Intervals = {1, 2, 3, 5, 7}
  Every = {0, 1, 2, 3, 4, 6, 9}
  Buffered = FALSE
  Dump = FALSE
INVARIANTS Complete Resumable Ordered Tiles Recent
PROPERTIES Stops
CHECK_DEADLOCK FALSE
