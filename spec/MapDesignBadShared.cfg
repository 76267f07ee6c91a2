SPECIFICATION Spec
CONSTANTS
 W = 2
 N = 2
 F = 2
 D = 1
 U = 1
 Atomic = TRUE
 KeepShared = FALSE
 InOrder = TRUE
 UpCheck = TRUE
 DownCheck = TRUE
INVARIANT Inv

CHECK_DEADLOCK FALSE
