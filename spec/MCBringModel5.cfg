SPECIFICATION Spec
CONSTANTS MaxLeaves = 5
INVARIANTS RowsSum FollowsTask OnlyWayOut Truth Paid
CHECK_DEADLOCK FALSE
