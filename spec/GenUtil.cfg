SPECIFICATION Spec
CONSTANTS MaxLines = 4 MaxToks = 2 MaxSlice = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
