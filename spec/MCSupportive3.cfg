SPECIFICATION Spec
CONSTANTS Level = 2
INVARIANTS Sums StartSums Codes CodesBack Moves FinalOnce Follows Likely Fair CanEnd Numbers
CHECK_DEADLOCK FALSE
