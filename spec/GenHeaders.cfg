SPECIFICATION Spec
CONSTANT MaxDev = 2
INVARIANTS Emit Plain Single
CHECK_DEADLOCK FALSE
