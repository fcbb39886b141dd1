SPECIFICATION Spec
CONSTANTS
  N = 4
  Slots = 2
  Failures = 2
  Common = FALSE
INVARIANTS AtMostSlots AllResults OnlyFailures
PROPERTY Ends
CHECK_DEADLOCK FALSE
