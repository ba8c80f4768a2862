SPECIFICATION MSpec
CONSTANTS
  P <- All
  Prod = {"p", "q", "r"}
  Rounds = 2
INVARIANTS Inv Rest
CHECK_DEADLOCK FALSE
