SPECIFICATION Spec
CONSTANTS
 W = 1
 N = 3
 F = 3
 D = 2
 U = 2
 Atomic = TRUE
 KeepShared = TRUE
 InOrder = TRUE
 UpCheck = TRUE
 DownCheck = TRUE
INVARIANT Inv
PROPERTY Ends
CHECK_DEADLOCK FALSE
