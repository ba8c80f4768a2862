SPECIFICATION Spec
CONSTANTS
  Prod = {p1, p2}
  Rounds = 3
  Variant = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE
