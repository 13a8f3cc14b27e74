SPECIFICATION MCSpec
CONSTANT Depth = 3
CONSTANT Many = TRUE
INVARIANT MembersAreAlone
INVARIANT ChargeCounts
