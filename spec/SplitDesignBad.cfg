SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Inv
CONSTANTS
 MaxChunks = 2
 MaxSize = 3
 MaxParts = 3
 Advance = FALSE
