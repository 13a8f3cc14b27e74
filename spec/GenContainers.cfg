SPECIFICATION MCSpec
CONSTANTS Depth = 7
 Gen = TRUE
INVARIANT Emit
