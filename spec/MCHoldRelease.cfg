SPECIFICATION Spec
INVARIANTS ReleaseAfterHuman Told Sums
PROPERTY Finishes
CHECK_DEADLOCK FALSE
