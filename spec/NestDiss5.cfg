SPECIFICATION Spec
CONSTANTS N = 5
 Base = 0
INVARIANTS Correct Conserve
CHECK_DEADLOCK FALSE
