SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 2
 Plan <- Shared
 Pre = 2
 MinTwo = TRUE
 Evict = "atomic"
 LockFirst = TRUE
 Early = FALSE
 Tolerant = TRUE
 Eager = TRUE
 Cached = TRUE
 Bound = 9
INVARIANT Released
