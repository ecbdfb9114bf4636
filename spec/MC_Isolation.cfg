SPECIFICATION Spec
CONSTANTS
  N = 2
  NCfg = 2
  MaxOps = 7
  Shared = FALSE
  Dump = FALSE
VIEW View
INVARIANTS Independent DefaultsKept Determined
CHECK_DEADLOCK FALSE
