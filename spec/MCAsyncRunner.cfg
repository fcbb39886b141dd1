SPECIFICATION Spec
CONSTANTS MaxNode = 2
          Actions = {1, 2}
          MaxOps = 5
INVARIANTS Exclusive Between During Aims NoMix AfterStop
PROPERTIES StopEnds CallsEnd Explores
CHECK_DEADLOCK FALSE
