SPECIFICATION Spec
CONSTANTS MaxLeaves = 6
INVARIANTS Recovered Kept
PROPERTY Progress
CHECK_DEADLOCK FALSE
