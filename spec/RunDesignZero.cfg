SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 2
 K = 2
 K1 = 0
 AllReport = TRUE
 LostCheck = TRUE
 TwoRounds = TRUE
INVARIANT OkIsComplete
INVARIANT ErrorIsReal
PROPERTY Ends
