SPECIFICATION Spec
CONSTANT MaxNodes = 6
INVARIANTS FlowIsDensity WeightIsSize OrderConditions Sharp
