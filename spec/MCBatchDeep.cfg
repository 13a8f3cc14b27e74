SPECIFICATION MCSpec
CONSTANTS Size = 3
 Depth = 2
 Currents = {3, 5, 7}
 Most = 4
 Gen = FALSE
 Defect = FALSE
INVARIANT Shared
PROPERTY Independent
PROPERTY Apart
