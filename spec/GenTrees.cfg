CONSTANTS NLG = 3 NX = 2
INIT Init
NEXT Next
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
