SPECIFICATION Spec
CONSTANTS N = 3 MaxSteps = 4 Dump = TRUE
INVARIANT DumpIt
