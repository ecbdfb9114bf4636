SPECIFICATION Spec
CONSTANTS Design = "real" MaxMaps = 2 MaxSteps = 5 Dump = TRUE
INVARIANT DumpIt
CHECK_DEADLOCK FALSE
