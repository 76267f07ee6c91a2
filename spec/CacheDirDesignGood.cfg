SPECIFICATION Spec
CONSTANTS
 P = 3
 Chunks = 2
 Whole = FALSE
INVARIANT Inv
PROPERTIES Ends Gone
CHECK_DEADLOCK FALSE
