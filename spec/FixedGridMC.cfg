SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Tiles Carried OnePerInterval Aligned
PROPERTY Ends
