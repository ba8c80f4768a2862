SPECIFICATION MSpec
CONSTANTS
  P <- All
  Ops = {"x", "y"}
  Unlocks = {"u", "v"}
  Step = 2500
  MaxT = 12500
INVARIANTS Inv Rest
CHECK_DEADLOCK FALSE
