SPECIFICATION MSpec
CONSTANTS
  P <- All
  Prod = {"p", "q"}
  Rounds = 3
INVARIANTS Inv Rest
CHECK_DEADLOCK FALSE
