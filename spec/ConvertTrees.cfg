CONSTANTS ShapeLG = 3 ShapeX = 2 RefLG = 0 RefX = 0 XNeg = 1
SPECIFICATION Spec
INVARIANTS Safe Refuses SameLeaf Injective RightNext
PROPERTY Ends
CHECK_DEADLOCK FALSE
