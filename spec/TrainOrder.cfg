SPECIFICATION Spec
CONSTANTS Docs = {1, 2, 3, 4}
 Workers = {1, 2, 3}
 Passes = 3
 Mod = 101
INVARIANT SameAsSequential
PROPERTY Terminates
CHECK_DEADLOCK FALSE
