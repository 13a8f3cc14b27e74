SPECIFICATION MCSpec
CONSTANTS Size = 2
 Depth = 2
 Currents = {3, 5, 7}
 Most = 1
 Gen = FALSE
 Defect = FALSE
INVARIANT Shared
PROPERTY Independent
PROPERTY Apart
