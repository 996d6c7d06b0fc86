SPECIFICATION Spec
CONSTANTS P = 2 QLow = 1 QMax = 1 Op = "add" Some = FALSE
INVARIANTS Ok
CHECK_DEADLOCK FALSE
