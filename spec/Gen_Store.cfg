SPECIFICATION Spec
CONSTANTS MaxOps = 14 Dump = TRUE
INVARIANT DumpIt
CHECK_DEADLOCK FALSE
