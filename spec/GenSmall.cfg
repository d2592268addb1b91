SPECIFICATION SpecG
INVARIANT InvG
CONSTANTS N = 5 D = 4
CHECK_DEADLOCK FALSE
