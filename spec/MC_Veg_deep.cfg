SPECIFICATION Spec
CONSTANTS
  NI = 4
  Changes = {"0", "-1", "8"}
  Waters = {"0", "0.7"}
  Methods = {"orig", "duranmoore14"}
  MaxSteps = 4
INVARIANTS Bounds Density Drown Burial1 Shelter SumKept OkinBounds Chances
PROPERTIES NeedsRoots
CHECK_DEADLOCK FALSE
