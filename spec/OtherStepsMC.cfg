SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Undone Second ZeroNet Implicit
CHECK_DEADLOCK FALSE
