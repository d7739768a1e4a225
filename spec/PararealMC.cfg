SPECIFICATION Spec
CONSTANTS M = 3
          N = 4
INVARIANTS ExactUpTo
PROPERTIES Stays FirstKept
CHECK_DEADLOCK FALSE
