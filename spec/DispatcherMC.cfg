SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Ls = 2
 Emit = TRUE
INVARIANTS OncePerListener InOrder PlainIsImmediate NothingPending Dump
