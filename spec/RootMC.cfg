SPECIFICATION Spec
CONSTANTS Size = 2
INVARIANTS InverseIsInverse OneStep Finite
PROPERTIES Secant
CHECK_DEADLOCK FALSE
