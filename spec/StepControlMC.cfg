SPECIFICATION Spec
CONSTANTS
  Grids <- MCGrids
  Dt0 <- MCDt0
  Ratios2 <- MCRatios2
  MaxTrials = 6
INVARIANTS NoOvershoot TimesIncrease OnlyRequested PrefixEmitted NothingSkipped NothingSkippedInterp DoneAtEnd InterpInside FirstIsInitial OwnState
CHECK_DEADLOCK FALSE
PROPERTIES RejectsLeaveNoTrace AcceptAdvances RejectShrinks PlainNeverShrinksBelowOne
