SPECIFICATION MSpec
CONSTANTS
  P <- All
  Cbs = {"c1", "c2"}
  Comps = {"x1", "x2"}
  Vals = {"v", "w"}
INVARIANTS Inv Rest
PROPERTIES OneValue Runs
CHECK_DEADLOCK FALSE
