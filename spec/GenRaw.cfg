SPECIFICATION Spec
INVARIANT InvEmit
CONSTANTS N = 3 D = 2
CHECK_DEADLOCK FALSE
