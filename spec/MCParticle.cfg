SPECIFICATION SpecFail
CONSTANTS NPart = 2
          MaxSteps = 2
          Budget = 3
INVARIANTS Size OnlyPossible FoundPossible Kept CanFind Exact
CHECK_DEADLOCK FALSE
