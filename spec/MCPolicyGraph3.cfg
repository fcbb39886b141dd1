SPECIFICATION Spec
CONSTANTS NN = 2
          MaxSteps = 7
INVARIANTS InGraph ResetIsBest BestExists
CHECK_DEADLOCK FALSE
