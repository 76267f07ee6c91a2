SPECIFICATION Spec
INVARIANTS Accepted NoRepeat
CHECK_DEADLOCK FALSE
CONSTANTS
 Sizes <- MCSizesLarge
 Rs = {1, 2, 3, 4}
 Ws = {1, 2, 3}
 Bs = {1, 2, 3}
 NodesSet = {1, 2}
 Shuffles = {TRUE, FALSE}
 MaxEpoch = 2
 Dedup = FALSE
 AllOrders = FALSE
