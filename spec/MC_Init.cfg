SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  NShares = 2
  Dump = FALSE
INVARIANTS FullLayers Given Positive Refused Accepted Cartesian
CHECK_DEADLOCK FALSE
