SPECIFICATION Spec
CONSTANTS NL = 3 MaxSteps = 3 Dump = FALSE
VIEW View
INVARIANT Inv_LayerTotals Inv_NonNegative Inv_BedLevel
PROPERTY Act_Balance
