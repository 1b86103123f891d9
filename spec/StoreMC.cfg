SPECIFICATION Spec
CONSTANTS Outs = {1, 2}
 MaxIts = 2
 Everys = {0, 1, 2}
 MaxRuns = 2
 MaxTotal = 5
 Emit = FALSE
INVARIANTS SnapshotsIntact LittleLost FinalModel Dump
PROPERTY OnlyOwn
CHECK_DEADLOCK FALSE
