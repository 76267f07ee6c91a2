SPECIFICATION Spec
INVARIANTS Accepted NoRepeat
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes <- MCSizesSmall
 Rs = {1, 2}
 Ws = {1, 2}
 Bs = {1, 2}
 NodesSet = {1}
 Shuffles = {TRUE, FALSE}
 MaxEpoch = 1
 Dedup = FALSE
 AllOrders = TRUE
