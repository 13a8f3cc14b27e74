SPECIFICATION MCSpec
CONSTANTS Depth = 9
 Gen = FALSE
 Two = TRUE
VIEW View
INVARIANT StepsExact
INVARIANT CyclesExact
INVARIANT WithinSize
PROPERTY NothingLost
PROPERTY MetaStays
