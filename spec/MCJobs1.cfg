SPECIFICATION Spec
CONSTANTS
  Level = 1
INVARIANTS InStep Expected Real Shortest Margin Helps Waits Tidy Equipped
CHECK_DEADLOCK FALSE
