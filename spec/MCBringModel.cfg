SPECIFICATION Spec
CONSTANTS MaxLeaves = 4
INVARIANTS RowsSum FollowsTask OnlyWayOut Truth Paid
CHECK_DEADLOCK FALSE
