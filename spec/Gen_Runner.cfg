SPECIFICATION Spec
CONSTANTS MaxOps = 12 Dump = TRUE
INVARIANT DumpIt
