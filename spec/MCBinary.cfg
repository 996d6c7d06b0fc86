CONSTANTS P = 2 QLow = 3 QMax = 2 BP = 3 ELow = 5 EMax = 3 Part = "to"
SPECIFICATION Spec
INVARIANT Right Back
CHECK_DEADLOCK FALSE
