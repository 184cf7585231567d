CONSTANT MaxDev = 2
SPECIFICATION Spec
INVARIANTS Emit Covered
PROPERTY Monotone
CHECK_DEADLOCK FALSE
