SPECIFICATION Spec
CONSTANTS
  S = {"s1", "s2", "s3"}
  A = {"a1", "a2"}
  MaxMeta = 1
  MaxTrans = 2
CONSTRAINT Small
INVARIANTS TypeOK OnlyExplained ExecutionsAreWalks ConjSound ChainsDisjoint ChainsCover CliquesCover
PROPERTIES AddedIsAccepted CompactPreserves
CHECK_DEADLOCK FALSE
