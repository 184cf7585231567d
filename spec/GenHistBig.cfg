CONSTANTS Len1 = 4 Len2 = 4
SPECIFICATION Spec
INVARIANTS Kept Applied
PROPERTY Frozen
CHECK_DEADLOCK FALSE
