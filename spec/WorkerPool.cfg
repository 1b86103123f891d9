SPECIFICATION FairSpec
CONSTANTS
  Focus = {"C01", "C02", "C03", "C04"}
  Caller = 0
  NL = 1
  Threads = {0}
  MaxDocs = 3
  MaxPasses = 2
  Ids = {1, 2, 3, 4, 5, 6}
  MaxCalls = 9
  W = 2
  Program <- Prog
  DocEvents = FALSE
  Record = FALSE
INVARIANTS TypeOK AllBeforeBatch EventsBeforeM OnlyEmitted NoLostWakeup EmptyAtEnd
PROPERTIES StepsAllowed Protocol Terminates
