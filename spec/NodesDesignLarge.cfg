SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 P = 4
 Runs = 3
 MayFail = TRUE
 Clean = "own"
 Wait = TRUE
 ChunksFirst = TRUE
INVARIANT Complete
