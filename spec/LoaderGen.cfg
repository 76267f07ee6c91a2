SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxSessions = 5
 MinChunks = 3
 MaxChunks = 6
 MaxSize = 7
