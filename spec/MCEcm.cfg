SPECIFICATION MCSpec
CONSTANTS Depth = 3
 Currents = {2, 4, 5, 7}
 Durations = {0, 20, 700}
 Gen = FALSE
VIEW View
INVARIANT Charge
PROPERTY HystBound
PROPERTY Bounded
PROPERTY NoTime
PROPERTY Same
PROPERTY Rest
PROPERTY Split
PROPERTY SplitRamp
