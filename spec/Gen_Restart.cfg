SPECIFICATION Spec
CONSTANTS
  NSteps = 8
  Every = 3
  MaxCrash = 3
  MaxOps = 14
  Fields = {"t", "dt", "steps", "dzb"}
  Dump = TRUE
INVARIANTS DumpIt
CHECK_DEADLOCK FALSE
