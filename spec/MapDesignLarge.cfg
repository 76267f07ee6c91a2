SPECIFICATION Spec
CONSTANTS
 W = 2
 N = 2
 F = 3
 D = 2
 U = 1
 Atomic = TRUE
 KeepShared = TRUE
 InOrder = TRUE
 UpCheck = TRUE
 DownCheck = TRUE
INVARIANT Inv

CHECK_DEADLOCK FALSE
