SPECIFICATION Spec
INVARIANT Faithful
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxItems = 3
 MaxBlob = 2
 Check = TRUE
