CONSTANTS
  Objs = 2
  Items = 2
INIT Init
NEXT Next
INVARIANT Rebuilt
CHECK_DEADLOCK FALSE
