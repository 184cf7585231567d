SPECIFICATION Spec
CONSTANTS MaxLines = 5 MaxToks = 3 MaxSlice = 3
INVARIANT Laws
CHECK_DEADLOCK FALSE
