SPECIFICATION Spec
CONSTANTS
  N = 5
  Heights = {"0", "0.5", "2"}
  Changes = {"0.6", "-1.2"}
  Fence = {"0", "0.05", "1"}
  MaxSteps = 4
INVARIANTS NotAgainst Flat Datum Mirrored NoBubbleOnFlats FenceLife FenceRange LeeOnly LeeRecovers
PROPERTIES FenceGone
CHECK_DEADLOCK FALSE
