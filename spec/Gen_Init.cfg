SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  NShares = 1
  Dump = TRUE
INVARIANTS DumpIt
CHECK_DEADLOCK FALSE
