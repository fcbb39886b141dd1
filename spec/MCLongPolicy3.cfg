SPECIFICATION Spec
CONSTANTS
  Subtasks = 4
  Faults = 3
  Resets = 1
INVARIANTS TypeOK InStep Order Equipped Tidy
PROPERTY Ends
CHECK_DEADLOCK FALSE
