SPECIFICATION Spec
CONSTANTS
  N = 2
  NCfg = 1
  MaxOps = 6
  Shared = TRUE
  Dump = FALSE
VIEW View
INVARIANTS Independent
CHECK_DEADLOCK FALSE
