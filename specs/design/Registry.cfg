SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q", "r", "s"}
  MaxFail = 1
  Variant = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE
