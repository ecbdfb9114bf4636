SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  TStop = 3
  Dts = {1}
  Dump = TRUE
INVARIANTS DumpIt
CHECK_DEADLOCK FALSE
