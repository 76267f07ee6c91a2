SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 W = 1
 Plan <- One
 Pre = 1
 MinTwo = FALSE
 Evict = "atomic"
 LockFirst = TRUE
 Early = TRUE
 Tolerant = TRUE
 Eager = TRUE
 Cached = FALSE
 Bound = 9
PROPERTY Progress
