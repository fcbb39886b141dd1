SPECIFICATION Spec
CONSTANTS
  Subtasks = 2
  Faults = 2
  Resets = 1
INVARIANTS TypeOK InStep Order Equipped Tidy
PROPERTY Ends
CHECK_DEADLOCK FALSE
