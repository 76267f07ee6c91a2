SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 2
 K = 3
 K1 = 3
 AllReport = TRUE
 LostCheck = TRUE
 TwoRounds = TRUE
INVARIANT OkIsComplete
INVARIANT ErrorIsReal
PROPERTY Ends
