SPECIFICATION MCSpec
CONSTANT Most = 6
CONSTANT Vs = {"truth", "3.5"}
CONSTANT Is = {"1", "0"}
INVARIANT Exact
INVARIANT ScaleFree
INVARIANT OrderFree
INVARIANT RestWins
INVARIANT CapacityCovers
INVARIANT ShortRefused
INVARIANT DeterminedIsSolvable
