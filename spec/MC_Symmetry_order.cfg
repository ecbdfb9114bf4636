SPECIFICATION Spec
CONSTANTS Design = "order" MaxMaps = 1 MaxSteps = 4 Dump = FALSE
INVARIANT Equivalent
CHECK_DEADLOCK FALSE
