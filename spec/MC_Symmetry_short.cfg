SPECIFICATION Spec
CONSTANTS Design = "real" MaxMaps = 1 MaxSteps = 4 Dump = FALSE
INVARIANT OrderIsFree
CHECK_DEADLOCK FALSE
