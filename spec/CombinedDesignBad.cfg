SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 D = 2
 MaxLen = 2
 Draws = 6
 U = 2
 BatchSize = 2
 Replay = "old"
INVARIANTS Complete Stopped PerStream Resumes
