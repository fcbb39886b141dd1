SPECIFICATION SpecFail
CONSTANTS NPart = 3
          MaxSteps = 3
          Budget = 5
INVARIANTS Size OnlyPossible FoundPossible Kept CanFind Exact
CHECK_DEADLOCK FALSE
