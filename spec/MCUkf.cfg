SPECIFICATION MCSpec
CONSTANT Depth = 3
INVARIANT KalmanLimit
INVARIANT Valid
INVARIANT Shrinks
INVARIANT Moments
