SPECIFICATION Spec
CONSTANTS
  N = 4
  Heights = {"0", "2"}
  Changes = {"0.6", "-1.2"}
  Fence = {"0", "0.05", "1"}
  MaxSteps = 3
INVARIANTS NotAgainst Flat Datum Mirrored NoBubbleOnFlats FenceLife FenceRange LeeOnly LeeRecovers
PROPERTIES FenceGone
CHECK_DEADLOCK FALSE
