SPECIFICATION MCSpec
CONSTANT Depth = 3
INVARIANT AllValid
INVARIANT RoundTrip
INVARIANT SlopeIsDerivative
INVARIANT Parts
