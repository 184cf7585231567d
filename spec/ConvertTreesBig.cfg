CONSTANTS ShapeLG = 4 ShapeX = 3 RefLG = 0 RefX = 0 XNeg = 2
SPECIFICATION Spec
INVARIANTS Safe Refuses SameLeaf Injective RightNext
PROPERTY Ends
CHECK_DEADLOCK FALSE
