SPECIFICATION Spec
CONSTANTS MaxOps = 4 Dump = FALSE
VIEW View
INVARIANT MutKnown
PROPERTIES Protected LastWins Frame Grows Ignored
CHECK_DEADLOCK FALSE
