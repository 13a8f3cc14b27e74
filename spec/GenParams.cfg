SPECIFICATION MCSpec
CONSTANTS Depth = 6
 Gen = TRUE
INVARIANT Emit
