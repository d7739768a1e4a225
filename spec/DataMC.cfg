SPECIFICATION Spec
CONSTANT Max = 3
INVARIANTS Ordered Complete
CHECK_DEADLOCK FALSE
