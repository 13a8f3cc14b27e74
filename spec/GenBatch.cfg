SPECIFICATION MCSpec
CONSTANTS Size = 3
 Depth = 3
 Currents = {3, 5, 7}
 Most = 16
 Gen = TRUE
 Defect = FALSE
INVARIANT Emit
