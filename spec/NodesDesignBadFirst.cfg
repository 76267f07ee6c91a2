SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 2
 Runs = 1
 MayFail = FALSE
 Clean = "own"
 Wait = TRUE
 ChunksFirst = FALSE
INVARIANT Complete
PROPERTY Ends
