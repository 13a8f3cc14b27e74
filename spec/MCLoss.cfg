SPECIFICATION MCSpec
CONSTANT Most = 1
INVARIANT TruthIsBest
INVARIANT Repeatable
INVARIANT NotNegative
INVARIANT VectorAndObjects
INVARIANT OnePerRow
