SPECIFICATION Spec
CONSTANTS
  S = {"s1", "s2", "s3"}
  A = {"a1", "a2"}
  MaxMeta = 2
  MaxTrans = 3
CONSTRAINT Small
INVARIANTS TypeOK OnlyExplained ExecutionsAreWalks ConjSound ChainsDisjoint ChainsCover CliquesCover
PROPERTIES AddedIsAccepted CompactPreserves
CHECK_DEADLOCK FALSE
