SPECIFICATION Spec
CONSTANTS
  N = 3
  NCfg = 8
  MaxOps = 16
  Shared = FALSE
  Dump = TRUE

INVARIANTS DumpIt
CHECK_DEADLOCK FALSE
