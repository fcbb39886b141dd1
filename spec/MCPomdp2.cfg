SPECIFICATION Spec
CONSTANTS NA = 2
          MaxSteps = 2
INVARIANTS Posterior Truth Normal SupportExact ObservationsSum
CHECK_DEADLOCK FALSE
