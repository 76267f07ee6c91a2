SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 2
 Runs = 2
 MayFail = FALSE
 Clean = "none"
 Wait = TRUE
 ChunksFirst = TRUE
INVARIANT Complete
PROPERTY Ends
