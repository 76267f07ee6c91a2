SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 5
 Cap = 2
 NQ = 2
 MaxCrash = 1
 SameQueue = TRUE
 CountItems = FALSE
 Atomic = FALSE
INVARIANT Complete
INVARIANT Durable
INVARIANT Resumable
