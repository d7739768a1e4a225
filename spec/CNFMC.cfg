SPECIFICATION Spec
CONSTANTS Draws = {1, 2, 3, 4}
          MaxSolves = 3
          MaxEvals = 3
INVARIANTS OnePerSolve
CHECK_DEADLOCK FALSE
