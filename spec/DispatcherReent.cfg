SPECIFICATION Spec
INVARIANTS Accepted Complete
