SPECIFICATION Spec
CONSTANT MaxOps = 5
INVARIANTS Routed Once BothEpochs
