SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
 MaxChunks = 4
 MaxSize = 3
 MaxParts = 3
 Advance = TRUE
