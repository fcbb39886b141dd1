SPECIFICATION Spec
CONSTANTS Kinds = {"Sequential", "Alternative", "Parallel"}
          MaxKids = 2
INVARIANTS SameExecutions NamesUnique IdsPrefix ProbaValid
CHECK_DEADLOCK FALSE
