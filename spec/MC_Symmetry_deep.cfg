SPECIFICATION Spec
CONSTANTS Design = "real" MaxMaps = 2 MaxSteps = 6 Dump = FALSE
INVARIANT Equivalent NonNegative Moves
CHECK_DEADLOCK FALSE
