SPECIFICATION Spec
CONSTANTS
  Moists = {"0", "0.005", "0.02", "0.05", "0.3"}
  Stars = {"0", "0.15", "0.2", "0.3", "0.6"}
  Methods = {"bagnold", "bagnold_gs", "kawamura", "lettau", "dk", "sauermann", "vanrijn_strypsteen"}
  MoistMethods = {"belly_johnson", "hotta", "chepil", "saleh_fryear_mod", "shao", "dong_2002", "gregory_darwish"}
  MaxSteps = 1
INVARIANTS NoMemory Raises Blocked NonNegative ZeroBelow Monotone Formulas InRange Periodic Identity Unit ShortArc GrainSpeed
CHECK_DEADLOCK FALSE
