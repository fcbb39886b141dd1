SPECIFICATION Spec
CONSTANTS NA = 1
          MaxSteps = 4
INVARIANTS Posterior Truth Normal SupportExact ObservationsSum
CHECK_DEADLOCK FALSE
