CONSTANTS Width = 32 Steps = 1 Threads = 1 Wide = FALSE Only = {}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sharp
PROPERTY StepOk
