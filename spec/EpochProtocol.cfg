SPECIFICATION AbsSpec
CONSTANTS
  Focus = {"C01", "C02", "C03", "C04"}
  Caller = 0
  NL = 1
  Threads = {0, 1}
  MaxDocs = 2
  MaxPasses = 2
  Ids = {1, 2}
  MaxCalls = 3
INVARIANTS TypeOK AllBeforeBatch EventsBeforeM OnlyEmitted EpochIsLast QuietWhenIdle
PROPERTIES TransformPure ModelOnlyByBatch
CONSTRAINT VersionBound
