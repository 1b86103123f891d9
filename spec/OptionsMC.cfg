SPECIFICATION Spec
CONSTANTS MaxSet = 1
 Emit = TRUE
INVARIANTS OwnSteps InferenceIsClassic NamedModelWins FreshClasses Sensible Dump
CHECK_DEADLOCK FALSE
