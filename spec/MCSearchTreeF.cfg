CONSTANTS Sims = 2
 Len_ = 2
 Rolls = 2
 Shared = FALSE
 Kind = "final"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS VisitsAddUp Entered EdgesToNodes ValuesPossible RootCounts HorizonRespected Terminates
