SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Batch = 2
INVARIANTS ProperTopics ProperClasses AlphaFixed BatchNotExceeded OfThisPass
PROPERTIES DocsKeepModel NoLabelsNoFit
