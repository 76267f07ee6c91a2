SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 3
 Runs = 2
 MayFail = TRUE
 Clean = "own"
 Wait = TRUE
 ChunksFirst = TRUE
INVARIANT Complete
