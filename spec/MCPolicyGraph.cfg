SPECIFICATION Spec
CONSTANTS NN = 2
          MaxSteps = 4
INVARIANTS InGraph ResetIsBest BestExists
CHECK_DEADLOCK FALSE
