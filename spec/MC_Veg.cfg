SPECIFICATION Spec
CONSTANTS
  NI = 3
  Changes = {"0", "-1", "8"}
  Waters = {"0", "0.7"}
  Methods = {"orig", "duranmoore14"}
  MaxSteps = 3
INVARIANTS Bounds Density Drown Burial1 Shelter SumKept OkinBounds Chances
PROPERTIES NeedsRoots
CHECK_DEADLOCK FALSE
