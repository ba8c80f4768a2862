SPECIFICATION Spec
CONSTANTS
  Groups = {g1, g2}
  Subs = {s1, s2, s3}
  NMsg = 3
  Variant = "none"
INVARIANT Inv
CHECK_DEADLOCK FALSE
