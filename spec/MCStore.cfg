SPECIFICATION MCSpec
CONSTANTS Depth = 8
 Gen = FALSE
 Two = FALSE
VIEW View
INVARIANT StepsExact
INVARIANT CyclesExact
INVARIANT WithinSize
PROPERTY NothingLost
PROPERTY MetaStays
