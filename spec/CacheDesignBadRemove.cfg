SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 2
 Plan <- Shared
 Pre = 2
 MinTwo = TRUE
 Evict = "split"
 LockFirst = TRUE
 Early = TRUE
 Tolerant = FALSE
 Eager = TRUE
 Cached = FALSE
 Bound = 9
INVARIANT Alive
