SPECIFICATION Spec
CONSTANT MaxSteps = 3
INVARIANTS Tiles Mean StrongTerm
