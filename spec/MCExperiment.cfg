SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b"}
  Runs = 2
INVARIANTS InOrder NoPathNoFile Merged Complete FreshFile
PROPERTY OnlyComplete
CHECK_DEADLOCK FALSE
