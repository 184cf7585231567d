CONSTANTS
  NLG = 2
  NX = 3
  XNeg = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
