SPECIFICATION Spec
CONSTANTS End = 6 MaxJumps = 3
INVARIANTS TimesNeverDecrease Budget EndsRight RequestedAppear Located FalseSide Refire
