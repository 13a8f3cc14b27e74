SPECIFICATION MCSpec
CONSTANTS Depth = 10
 MaxUsers = 3
 Shares = FALSE
 Common = FALSE
INVARIANT Alone
PROPERTY OnlyTheCaller
CHECK_DEADLOCK FALSE
