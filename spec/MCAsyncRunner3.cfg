SPECIFICATION Spec
CONSTANTS MaxNode = 3
          Actions = {1, 2}
          MaxOps = 7
INVARIANTS Exclusive Between During Aims NoMix AfterStop
PROPERTIES StopEnds CallsEnd Explores
CHECK_DEADLOCK FALSE
