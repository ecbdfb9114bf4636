SPECIFICATION Spec
CONSTANTS N = 3 MaxSteps = 2 Dump = FALSE
VIEW View
INVARIANT NonNegative WeightsOK
PROPERTY Budget Bounded Saturated
