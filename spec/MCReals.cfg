CONSTANTS W = 19 Part = "precise"
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Ok Once
