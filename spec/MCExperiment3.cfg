SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  Runs = 4
INVARIANTS InOrder NoPathNoFile Merged Complete FreshFile
PROPERTY OnlyComplete
CHECK_DEADLOCK FALSE
