SPECIFICATION Spec
CONSTANTS
  Depth = 4
  NX = 30
  NM = 2
INVARIANTS RotateAdds RotateKeeps RotateCentre MasksCompose SeriesRepeats SeriesRecords SeriesWithin SeriesInside Sums Sizes
CHECK_DEADLOCK FALSE
