SPECIFICATION MCSpec
CONSTANTS Depth = 7
 MaxUsers = 2
 Shares = FALSE
 Common = TRUE
INVARIANT Alone
PROPERTY OnlyTheCaller
CHECK_DEADLOCK FALSE
