CONSTANTS
  Objs = 2
  Items = 1
INIT Init
NEXT Next
INVARIANT Rebuilt
CHECK_DEADLOCK FALSE
