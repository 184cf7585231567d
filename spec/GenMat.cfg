CONSTANTS
  MaxLines = 2
  MaxToks = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
