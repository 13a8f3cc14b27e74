SPECIFICATION MCSpec
CONSTANTS Depth = 7
 MaxUsers = 2
 Shares = TRUE
 Common = FALSE
INVARIANT Alone
PROPERTY OnlyTheCaller
CHECK_DEADLOCK FALSE
