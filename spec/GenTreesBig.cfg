CONSTANTS NLG = 4 NX = 3
INIT Init
NEXT Next
INVARIANT WellFormed
CHECK_DEADLOCK FALSE
