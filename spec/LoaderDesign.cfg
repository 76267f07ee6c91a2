SPECIFICATION Spec
INVARIANT Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
 Shares <- MCShares
 Bs = {1, 2}
 MaxEpoch = 2
 MaxSaves = 2
 MaxSteps = 15
 Exhausted = TRUE
