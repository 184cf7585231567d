SPECIFICATION Spec
CONSTANTS MaxSegs = 4 MaxLen = 2
INVARIANT Outcome
PROPERTY Ends
CHECK_DEADLOCK FALSE
