SPECIFICATION MCSpec
CONSTANTS Depth = 7
 Gen = FALSE
VIEW View
INVARIANT RoundTrip
INVARIANT PackUnpack
INVARIANT NamesMatch
