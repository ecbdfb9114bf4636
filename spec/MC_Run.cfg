SPECIFICATION Spec
CONSTANTS
  MaxSteps = 5
  TStop = 3
  Dts = {1, 2}
  Dump = FALSE
INVARIANTS Loaded Counts Fails Written Home Ends
PROPERTIES Answers
CHECK_DEADLOCK FALSE
