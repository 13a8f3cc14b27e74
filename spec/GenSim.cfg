SPECIFICATION MCSpec
CONSTANTS Depth = 8
 Gen = TRUE
INVARIANT Emit
