SPECIFICATION Spec
CONSTANTS
  N = 3
  Max = 10
  Steps = 2
  Res = 4
INVARIANTS InRange InClass Possible Exact Distribution Lengths
CHECK_DEADLOCK FALSE
