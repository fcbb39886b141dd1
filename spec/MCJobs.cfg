SPECIFICATION Spec
CONSTANTS
  Level = 2
INVARIANTS InStep Expected Real Shortest Margin Helps Waits Tidy Equipped
CHECK_DEADLOCK FALSE
