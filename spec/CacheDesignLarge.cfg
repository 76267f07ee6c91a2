SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 3
 Plan <- Three
 Pre = 2
 MinTwo = TRUE
 Evict = "atomic"
 LockFirst = TRUE
 Early = TRUE
 Tolerant = TRUE
 Eager = TRUE
 Cached = FALSE
 Bound = 5
INVARIANT Alive
INVARIANT Safe
INVARIANT Released
