SPECIFICATION Spec
CONSTANTS MaxOps = 3
 Wide = FALSE
 Emit = FALSE
INVARIANTS LastCallsCount FlagsSuffice RefusedExactly Remedy Dump
CHECK_DEADLOCK FALSE
