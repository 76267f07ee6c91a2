SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 9
 Cap = 2
 NQ = 2
 MaxCrash = 4
 SameQueue = TRUE
 CountItems = FALSE
 Atomic = TRUE
INVARIANT Complete
INVARIANT Durable
INVARIANT Resumable
