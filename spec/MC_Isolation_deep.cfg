SPECIFICATION Spec
CONSTANTS
  N = 3
  NCfg = 2
  MaxOps = 8
  Shared = FALSE
  Dump = FALSE
VIEW View
INVARIANTS Independent DefaultsKept Determined
CHECK_DEADLOCK FALSE
