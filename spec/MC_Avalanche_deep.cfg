SPECIFICATION Spec
CONSTANTS NI1 = 6 NI2 = 5 Heights = {0, 2, 5} Floors = {"-9", "0.4"} MaxIt = 200
INVARIANT AboveFloor Rests
PROPERTY Conserved NoNewPeak NoNewPit
CHECK_DEADLOCK FALSE
