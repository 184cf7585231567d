INIT Init
NEXT Next
INVARIANT Monotone
INVARIANT HugeRefused
CHECK_DEADLOCK FALSE
