SPECIFICATION Spec
CONSTANTS Buckets = {0, 1}
          MaxLen = 3
INVARIANTS Equivalence OnePerContent Implements
CHECK_DEADLOCK FALSE
