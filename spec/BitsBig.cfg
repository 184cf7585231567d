CONSTANTS W = 2 Words = 2 Nodes = 3 Extra = 1
SPECIFICATION Spec
INVARIANT Member
CHECK_DEADLOCK FALSE
