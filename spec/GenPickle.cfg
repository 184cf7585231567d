CONSTANTS
  Depth = 5
  Names = {1, 2}
INIT Init
NEXT Next
INVARIANTS Done WellFormed
CHECK_DEADLOCK FALSE
