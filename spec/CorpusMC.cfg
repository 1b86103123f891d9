SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS KeepsDocuments PriorsAreFrequencies
