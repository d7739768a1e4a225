SPECIFICATION Spec
CONSTANTS
  Args = {"a", "b", "c"}
  Slots = {1, 2, 3}
  MaxSolves = 4
INVARIANT Function
CHECK_DEADLOCK FALSE
