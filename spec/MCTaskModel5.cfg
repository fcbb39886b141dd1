SPECIFICATION Spec
CONSTANTS MaxLeaves = 5
INVARIANTS RowsSum StartSums FollowsTask Truth
CHECK_DEADLOCK FALSE
