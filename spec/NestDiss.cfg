SPECIFICATION Spec
CONSTANTS N = 4
 Base = 1
INVARIANTS Correct Conserve
CHECK_DEADLOCK FALSE
