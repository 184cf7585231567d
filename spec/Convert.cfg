CONSTANTS ShapeLG = 3 ShapeX = 2 RefLG = 2 RefX = 3 XNeg = 1
SPECIFICATION Spec
INVARIANTS Safe Refuses SameLeaf Injective RightNext
PROPERTY Ends
CHECK_DEADLOCK FALSE
