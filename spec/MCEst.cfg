SPECIFICATION MCSpec
CONSTANT Depth = 2
INVARIANT SameInAllCoordinates
INVARIANT UnselectedStay
INVARIANT NoCross
INVARIANT NamesMatch
INVARIANT VectorsAndObjects
