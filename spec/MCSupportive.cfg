SPECIFICATION Spec
CONSTANTS Level = 1
INVARIANTS Sums StartSums Codes CodesBack Moves FinalOnce Follows Likely Fair CanEnd Numbers
CHECK_DEADLOCK FALSE
