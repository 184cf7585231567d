CONSTANTS ShapeLG = 4 ShapeX = 3 RefLG = 3 RefX = 3 XNeg = 2
SPECIFICATION Spec
INVARIANTS Safe Refuses SameLeaf Injective RightNext
PROPERTY Ends
CHECK_DEADLOCK FALSE
