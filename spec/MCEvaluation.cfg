SPECIFICATION Spec
CONSTANTS
  Max = 3
  Last = 2
  Big = FALSE
  P = 9
  Q = 10
INVARIANTS Shape EndsRight SameReturn
CHECK_DEADLOCK FALSE
