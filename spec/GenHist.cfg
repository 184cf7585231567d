CONSTANTS Len1 = 3 Len2 = 3
SPECIFICATION Spec
INVARIANTS Kept Applied
PROPERTY Frozen
CHECK_DEADLOCK FALSE
