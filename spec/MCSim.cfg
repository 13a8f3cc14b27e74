SPECIFICATION MCSpec
CONSTANTS Depth = 5
 Gen = FALSE
INVARIANT HistoriesMatch
INVARIANT Agree
PROPERTY HistoriesGrow
