SPECIFICATION Spec
CONSTANT MaxTrials = 4
INVARIANTS TimesFall InSpan
PROPERTY Reflected
