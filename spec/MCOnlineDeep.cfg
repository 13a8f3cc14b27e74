SPECIFICATION MCSpec
CONSTANT Wide = TRUE
INVARIANT Aligned
INVARIANT AsByHand
INVARIANT Complete
INVARIANT StoredExactly
INVARIANT Terminates
INVARIANT RoomForEveryRow
