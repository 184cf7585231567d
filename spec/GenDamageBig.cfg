CONSTANTS
  NLG = 3
  NX = 3
  XNeg = 2
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
