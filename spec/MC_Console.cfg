SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Dump = FALSE
INVARIANTS OwnFiles OthersKept MineKept Fresh FailKeeps
CHECK_DEADLOCK FALSE
