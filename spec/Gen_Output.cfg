SPECIFICATION Spec
CONSTANTS
  MaxT = 6
  Intervals = {1, 2, 3}
  Every = {0, 1, 2, 4}
  Buffered = FALSE
  Dump = TRUE
INVARIANTS DumpIt
CHECK_DEADLOCK FALSE
