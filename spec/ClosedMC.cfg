SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Starting Equation Bound Tight Conserve GradBound
CHECK_DEADLOCK FALSE
