CONSTANT MaxDev = 1
SPECIFICATION Spec
INVARIANTS Emit Covered
PROPERTY Monotone
CHECK_DEADLOCK FALSE
