SPECIFICATION MCSpec
CONSTANTS Depth = 12
 Gen = TRUE
 Two = TRUE
INVARIANT Emit
