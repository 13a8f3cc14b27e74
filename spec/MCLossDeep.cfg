SPECIFICATION MCSpec
CONSTANT Most = 2
INVARIANT TruthIsBest
INVARIANT Repeatable
INVARIANT NotNegative
INVARIANT VectorAndObjects
INVARIANT OnePerRow
