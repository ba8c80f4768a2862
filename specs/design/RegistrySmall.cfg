SPECIFICATION Spec
CONSTANTS
  Procs = {"p", "q", "r"}
  MaxFail = 1
  Variant = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE
