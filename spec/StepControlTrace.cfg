SPECIFICATION Spec
INVARIANT CkInRange
CHECK_DEADLOCK FALSE
