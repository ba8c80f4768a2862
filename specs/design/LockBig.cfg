SPECIFICATION Spec
CONSTANTS
  Clients = {c1, c2, c3}
  Expiry = 3
  MaxT = 14
  Variant = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE
