SPECIFICATION Spec
CONSTANT MaxDim = 3
INVARIANTS WritesWellFormed ReadsBack Bijective InData
