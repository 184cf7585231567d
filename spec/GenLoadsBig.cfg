SPECIFICATION Spec
CONSTANTS MaxLoads = 3 MaxChunks = 5 MaxTotal = 8
INVARIANT Alone
CHECK_DEADLOCK FALSE
