SPECIFICATION Spec
CONSTANTS
  MaxCount = 2
  MaxIt = 4
INVARIANTS ProperPhi GammaIsAlphaPlusCounts EmptyGivesAlpha
PROPERTY BoundRises
