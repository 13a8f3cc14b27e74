SPECIFICATION MCSpec
CONSTANTS Depth = 3
 Gen = FALSE
VIEW View
INVARIANT Agree
PROPERTY Unchanged
