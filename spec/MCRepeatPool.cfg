SPECIFICATION Spec
CONSTANTS
  N = 3
  Slots = 2
  Failures = 1
  Common = FALSE
INVARIANTS AtMostSlots AllResults OnlyFailures
PROPERTY Ends
CHECK_DEADLOCK FALSE
