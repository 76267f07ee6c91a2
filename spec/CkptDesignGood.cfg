SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 7
 Cap = 2
 NQ = 2
 MaxCrash = 3
 SameQueue = TRUE
 CountItems = FALSE
 Atomic = TRUE
INVARIANT Complete
INVARIANT Durable
INVARIANT Resumable
