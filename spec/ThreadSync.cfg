SPECIFICATION Spec
CONSTANTS N = 3
 Rounds = 2
 Bars = 2
 Spurious = TRUE
INVARIANTS BarriersHold NoOvertake LaunchWaits OneTask NobodyAfterDestroy Mutex
PROPERTIES Termination
