SPECIFICATION MCSpec
CONSTANT Depth = 4
INVARIANT SameInAllCoordinates
INVARIANT UnselectedStay
INVARIANT NoCross
INVARIANT NamesMatch
INVARIANT VectorsAndObjects
