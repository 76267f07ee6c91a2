SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 2
 Runs = 1
 MayFail = FALSE
 Clean = "own"
 Wait = FALSE
 ChunksFirst = TRUE
INVARIANT Complete
PROPERTY Ends
