SPECIFICATION Spec
INVARIANT Faithful
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxItems = 2
 MaxBlob = 2
 Check = TRUE
