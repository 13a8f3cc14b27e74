SPECIFICATION MCSpec
CONSTANT Depth = 4
INVARIANT AllValid
INVARIANT RoundTrip
INVARIANT SlopeIsDerivative
INVARIANT Parts
