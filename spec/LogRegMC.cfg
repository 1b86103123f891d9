SPECIFICATION Spec
INVARIANTS IsDerivative NonNegative BalancedWeights
