SPECIFICATION Spec
CONSTANTS
  MaxSteps = 9
  TStop = 8
  Dts = {1, 2, 3}
  Dump = FALSE
INVARIANTS Loaded Counts Fails Written Home Ends
PROPERTIES Answers
CHECK_DEADLOCK FALSE
