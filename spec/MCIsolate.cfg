SPECIFICATION MCSpec
CONSTANTS Depth = 8
 MaxUsers = 3
 Shares = FALSE
 Common = FALSE
INVARIANT Alone
PROPERTY OnlyTheCaller
CHECK_DEADLOCK FALSE
