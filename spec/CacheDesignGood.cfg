SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 2
 Plan <- Shared
 Pre = 2
 MinTwo = TRUE
 Evict = "atomic"
 LockFirst = TRUE
 Early = TRUE
 Tolerant = TRUE
 Eager = TRUE
 Cached = FALSE
 Bound = 6
INVARIANT Alive
INVARIANT Safe
INVARIANT Released
PROPERTY Progress
INVARIANT Bounded
