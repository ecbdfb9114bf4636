SPECIFICATION Spec
CONSTANTS
  N = 3
  Max = 10
  Steps = 3
  Res = 5
INVARIANTS InRange InClass Possible Exact Distribution Lengths
CHECK_DEADLOCK FALSE
