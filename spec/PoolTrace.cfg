SPECIFICATION TraceSpec
CONSTANTS
  Focus = {@FOCUS@}
  Caller = 0
  NL = @NL@
  Threads = {0}
  MaxDocs = 0
  MaxPasses = 0
  Ids = {}
  MaxCalls = 0
INVARIANTS Accepted TInv
