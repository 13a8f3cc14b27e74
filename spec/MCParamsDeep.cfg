SPECIFICATION MCSpec
CONSTANTS Depth = 5
 Gen = FALSE
VIEW View
INVARIANT Agree
PROPERTY Unchanged
