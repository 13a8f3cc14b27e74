SPECIFICATION MCSpec
CONSTANT Depth = 2
CONSTANT Modes = {"linear", "constant"}
INVARIANT SameInAllCoordinates
INVARIANT UnselectedStay
INVARIANT NoCross
INVARIANT NamesMatch
INVARIANT VectorsAndObjects
INVARIANT Certain
