SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 2
 K = 1
 K1 = 1
 AllReport = TRUE
 LostCheck = TRUE
 TwoRounds = FALSE
INVARIANT OkIsComplete
INVARIANT ErrorIsReal
PROPERTY Ends
