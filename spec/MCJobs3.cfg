SPECIFICATION Spec
CONSTANTS
  Level = 3
INVARIANTS InStep Expected Real Shortest Margin Helps Waits Tidy Equipped
PROPERTY Ends
CHECK_DEADLOCK FALSE
