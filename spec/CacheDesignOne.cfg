SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 1
 Plan <- One
 Pre = 2
 MinTwo = TRUE
 Evict = "atomic"
 LockFirst = TRUE
 Early = TRUE
 Tolerant = TRUE
 Eager = TRUE
 Cached = FALSE
 Bound = 3
INVARIANT Alive
INVARIANT Safe
INVARIANT Released
PROPERTY Progress
INVARIANT Bounded
