SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  Dump = FALSE
INVARIANTS OwnFiles OthersKept MineKept Fresh FailKeeps
CHECK_DEADLOCK FALSE
