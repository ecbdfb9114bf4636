SPECIFICATION Spec
CONSTANTS Alphabet = {"T", "1", "0", ".", "-", "e", " ", "%", "a"} MaxLen = 6 Dump = FALSE
INVARIANTS Total Comment Padding Numbers Double Lists Line LastWins
CHECK_DEADLOCK FALSE
