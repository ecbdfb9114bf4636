SPECIFICATION Spec
CONSTANTS N = 3 MaxSteps = 3 Dump = FALSE
VIEW View
INVARIANT NonNegative WeightsOK
PROPERTY Budget Bounded Saturated
