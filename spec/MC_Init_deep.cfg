SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  NShares = 4
  Dump = FALSE
INVARIANTS FullLayers Given Positive Refused Accepted Cartesian
CHECK_DEADLOCK FALSE
