SPECIFICATION Spec
INVARIANTS BestExists OnlyProportions ShiftInvariant
