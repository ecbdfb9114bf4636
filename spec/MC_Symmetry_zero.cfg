SPECIFICATION Spec
CONSTANTS Design = "zero" MaxMaps = 1 MaxSteps = 4 Dump = FALSE
INVARIANT Equivalent
CHECK_DEADLOCK FALSE
