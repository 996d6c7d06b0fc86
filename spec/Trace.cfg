SPECIFICATION Spec
CONSTANT Aspects = {"value", "quantum", "must", "spur", "sticky", "errno", "errno0", "round", "brm", "canon", "crash", "env", "ulp"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
