SPECIFICATION MCSpec
CONSTANTS Depth = 5
 Gen = FALSE
VIEW View
INVARIANT RoundTrip
INVARIANT PackUnpack
INVARIANT NamesMatch
