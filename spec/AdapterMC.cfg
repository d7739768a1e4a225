SPECIFICATION Spec
CONSTANTS
  Subs = {1, 2}
  Times = {0, 1, 2}
  Data = {"a", "b"}
  MaxSolves = 3
  MaxEvals = 3
INVARIANT SeesCurrent
PROPERTY ControlKept
CHECK_DEADLOCK FALSE
