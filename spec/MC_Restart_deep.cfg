SPECIFICATION Spec
CONSTANTS
  NSteps = 7
  Every = 3
  MaxCrash = 3
  MaxOps = 13
  Fields = {"t", "dt", "steps", "dzb"}
  Dump = FALSE
VIEW View
INVARIANTS OnTrack FilesOnTrack SameSchedule
CHECK_DEADLOCK FALSE
