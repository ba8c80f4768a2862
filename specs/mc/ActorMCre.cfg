SPECIFICATION MSpec
CONSTANTS
  P <- All
  Step = 5000
  MaxT = 15000
  Use = {"call", "re", "stop"}
INVARIANTS OneAtATime Once Refusal Silent Whole Bounded Cycle Replied Corner
PROPERTIES TimerOff
CHECK_DEADLOCK FALSE
