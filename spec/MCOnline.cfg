SPECIFICATION MCSpec
CONSTANT Wide = FALSE
INVARIANT Aligned
INVARIANT AsByHand
INVARIANT Complete
INVARIANT StoredExactly
INVARIANT Terminates
INVARIANT RoomForEveryRow
