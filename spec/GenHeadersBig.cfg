SPECIFICATION Spec
CONSTANT MaxDev = 3
INVARIANTS Emit Plain Single
CHECK_DEADLOCK FALSE
