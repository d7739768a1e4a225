SPECIFICATION Spec
CONSTANTS
  Spans = {1, 2}
  Saves = {0, 1}
  MaxEvals = 3
  MaxCalls = 3
INVARIANTS Counted Functional Resolved
CHECK_DEADLOCK FALSE
