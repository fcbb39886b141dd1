SPECIFICATION Spec
CONSTANTS
  Max = 4
  Last = 2
  Big = TRUE
  P = 9
  Q = 10
INVARIANTS Shape EndsRight SameReturn
CHECK_DEADLOCK FALSE
