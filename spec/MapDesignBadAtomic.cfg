SPECIFICATION Spec
CONSTANTS
 W = 2
 N = 2
 F = 2
 D = 1
 U = 1
 Atomic = FALSE
 KeepShared = TRUE
 InOrder = TRUE
 UpCheck = TRUE
 DownCheck = TRUE
INVARIANT Inv

CHECK_DEADLOCK FALSE
