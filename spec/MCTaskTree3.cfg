SPECIFICATION Spec
CONSTANTS Kinds = {"Sequential", "Alternative", "Parallel"}
          MaxKids = 3
INVARIANTS SameExecutions NamesUnique IdsPrefix ProbaValid
CHECK_DEADLOCK FALSE
