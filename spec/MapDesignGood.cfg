SPECIFICATION Spec
CONSTANTS
 W = 2
 N = 2
 F = 2
 D = 1
 U = 1
 Atomic = TRUE
 KeepShared = TRUE
 InOrder = TRUE
 UpCheck = TRUE
 DownCheck = TRUE
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
