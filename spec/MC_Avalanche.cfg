SPECIFICATION Spec
CONSTANTS NI1 = 5 NI2 = 4 Heights = {0, 1, 2, 5} Floors = {"-9", "0.4"} MaxIt = 200
INVARIANT AboveFloor Rests
PROPERTY Conserved NoNewPeak NoNewPit
CHECK_DEADLOCK FALSE
