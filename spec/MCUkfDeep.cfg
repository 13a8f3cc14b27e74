SPECIFICATION MCSpec
CONSTANT Depth = 5
INVARIANT KalmanLimit
INVARIANT Valid
INVARIANT Shrinks
INVARIANT Moments
