SPECIFICATION MCSpec
CONSTANT Depth = 2
CONSTANT Many = FALSE
INVARIANT MembersAreAlone
INVARIANT ChargeCounts
