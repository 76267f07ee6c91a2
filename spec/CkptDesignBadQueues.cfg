SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 N = 5
 Cap = 2
 NQ = 2
 MaxCrash = 1
 SameQueue = FALSE
 CountItems = FALSE
 Atomic = TRUE
INVARIANT Complete
INVARIANT Durable
INVARIANT Resumable
