SPECIFICATION Spec
CONSTANTS MaxLeaves = 4
INVARIANTS RowsSum StartSums FollowsTask Truth
CHECK_DEADLOCK FALSE
