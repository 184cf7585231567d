SPECIFICATION Spec
CONSTANTS MaxLoads = 3 MaxChunks = 3 MaxTotal = 6
INVARIANT Alone
CHECK_DEADLOCK FALSE
