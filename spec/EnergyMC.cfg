SPECIFICATION Spec
CONSTANTS Cs = {"-1", "0", "1", "3/2"}
          Steps = 3
INVARIANTS Along
PROPERTIES Kept
CHECK_DEADLOCK FALSE
