SPECIFICATION Spec
CONSTANTS
 P = 2
 Chunks = 2
 Whole = TRUE
INVARIANT Inv
PROPERTIES Ends Gone
CHECK_DEADLOCK FALSE
