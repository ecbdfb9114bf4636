SPECIFICATION Spec
CONSTANTS
  NSteps = 5
  Every = 3
  MaxCrash = 2
  MaxOps = 9
  Fields = {"t", "dt", "steps", "dzb"}
  Dump = FALSE
VIEW View
INVARIANTS OnTrack FilesOnTrack SameSchedule
CHECK_DEADLOCK FALSE
