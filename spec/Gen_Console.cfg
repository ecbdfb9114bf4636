SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  Dump = TRUE
INVARIANTS DumpIt
CHECK_DEADLOCK FALSE
