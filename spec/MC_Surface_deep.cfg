SPECIFICATION Spec
CONSTANTS
  NI = 4
  Covers = {"0", "0.005", "0.2"}
  MaxSteps = 4
INVARIANTS MassPositive
PROPERTIES AboveLayer ExposedStays MixConserves ResetTowards StormErodes StormLimited
CHECK_DEADLOCK FALSE
