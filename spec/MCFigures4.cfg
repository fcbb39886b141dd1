SPECIFICATION Spec
CONSTANTS
  Values = {0, 1, 3}
  Longest = 4
  Jobs = {"a", "b"}
INVARIANTS OnlyPrepared OnlyComplete OncePerConfiguration Statistics
PROPERTY Shown
CHECK_DEADLOCK FALSE
