SPECIFICATION Spec
CONSTANTS
 W = 1
 N = 3
 F = 3
 D = 2
 U = 1
 Atomic = TRUE
 KeepShared = TRUE
 InOrder = FALSE
 UpCheck = TRUE
 DownCheck = TRUE
INVARIANT Inv

CHECK_DEADLOCK FALSE
