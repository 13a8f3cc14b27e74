SPECIFICATION MCSpec
CONSTANTS Depth = 8
 MaxObjs = 3
 MaxTexts = 3
 Gen = TRUE
INVARIANT Emit
CHECK_DEADLOCK FALSE
