SPECIFICATION Spec
CONSTANTS Producers = {1, 2}
 PerThread = 2
 Rounds = 3
INVARIANTS ExactlyOnce ThreadOrder NothingLost RegOrder Accounted
PROPERTY Removed
