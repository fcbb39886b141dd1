SPECIFICATION Spec
CONSTANTS MaxLeaves = 5
INVARIANTS Recovered Kept
PROPERTY Progress
CHECK_DEADLOCK FALSE
