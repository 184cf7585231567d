CONSTANTS
  Depth = 6
  Names = {1}
INIT Init
NEXT Next
INVARIANTS Done WellFormed
CHECK_DEADLOCK FALSE
