SPECIFICATION Spec
CONSTANTS
  Depth = 7
  NX = 60
  NM = 4
INVARIANTS RotateAdds RotateKeeps RotateCentre MasksCompose SeriesRepeats SeriesRecords SeriesWithin SeriesInside Sums Sizes
CHECK_DEADLOCK FALSE
