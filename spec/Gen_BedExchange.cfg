SPECIFICATION Spec
CONSTANTS NL = 2 MaxSteps = 5 Dump = TRUE
INVARIANT Inv_Dump
