SPECIFICATION Spec
CONSTANT MaxIt = 4
INVARIANT Bound
INVARIANT Monotone
INVARIANT ValueOfCurrent
PROPERTY Stops
