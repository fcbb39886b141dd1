CONSTANTS Sims = 3
 Len_ = 2
 Rolls = 1
 Shared = TRUE
 Kind = "trans"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS VisitsAddUp Entered EdgesToNodes ValuesPossible RootCounts HorizonRespected Terminates
