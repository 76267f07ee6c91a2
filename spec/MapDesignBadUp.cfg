SPECIFICATION Spec
CONSTANTS
 W = 1
 N = 2
 F = 2
 D = 1
 U = 1
 Atomic = TRUE
 KeepShared = TRUE
 InOrder = TRUE
 UpCheck = FALSE
 DownCheck = TRUE
INVARIANT Inv

CHECK_DEADLOCK FALSE
