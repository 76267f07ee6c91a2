SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 1
 Plan <- One
 Pre = 4
 MinTwo = TRUE
 Evict = "atomic"
 LockFirst = TRUE
 Early = TRUE
 Tolerant = TRUE
 Eager = FALSE
 Cached = FALSE
 Bound = 5
INVARIANT Bounded
