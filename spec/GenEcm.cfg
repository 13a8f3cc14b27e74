SPECIFICATION MCSpec
CONSTANTS Depth = 6
 Currents = {2, 4, 5, 7}
 Durations = {0, 20, 700}
 Gen = TRUE
INVARIANT Emit
