SPECIFICATION Spec
CONSTANTS Design = "real" MaxMaps = 1 MaxSteps = 4 Dump = FALSE
INVARIANT Equivalent NonNegative Moves
CHECK_DEADLOCK FALSE
