SPECIFICATION Spec
INVARIANTS Pairs Laws Singles
CHECK_DEADLOCK FALSE
