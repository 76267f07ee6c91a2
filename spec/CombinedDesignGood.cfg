SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 D = 3
 MaxLen = 2
 Draws = 9
 U = 2
 BatchSize = 2
 Replay = "exact"
INVARIANTS Complete Stopped PerStream Resumes
