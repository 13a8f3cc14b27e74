SPECIFICATION MCSpec
CONSTANTS Depth = 6
 Gen = FALSE
INVARIANT HistoriesMatch
INVARIANT Agree
PROPERTY HistoriesGrow
