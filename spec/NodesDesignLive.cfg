SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 3
 Runs = 2
 MayFail = FALSE
 Clean = "own"
 Wait = TRUE
 ChunksFirst = TRUE
INVARIANT Complete
PROPERTY Ends
