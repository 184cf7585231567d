CONSTANTS W = 2 Words = 3 Nodes = 2 Extra = 1
SPECIFICATION Spec
INVARIANT Member
CHECK_DEADLOCK FALSE
