SPECIFICATION Spec
CONSTANTS Depth = 3
INVARIANTS Symmetric Divergence
CHECK_DEADLOCK FALSE
