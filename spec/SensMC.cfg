SPECIFICATION Spec
CONSTANT MaxTimes = 3
INVARIANTS Gradients Derivatives Times
CHECK_DEADLOCK FALSE
