SPECIFICATION Spec
CONSTANTS Alphabet = {"T", "1", "0", ".", "-", "e", " ", "%", "a"} MaxLen = 4 Dump = TRUE
INVARIANTS DumpIt
CHECK_DEADLOCK FALSE
