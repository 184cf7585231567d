SPECIFICATION Spec
CONSTANTS MaxSegs = 3 MaxLen = 2
INVARIANT Outcome
PROPERTY Ends
CHECK_DEADLOCK FALSE
