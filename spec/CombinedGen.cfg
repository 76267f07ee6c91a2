SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxSessions = 3
  MaxSize = 9
  Workers = {0, 0, 1, 2, 3}
  Loads = FALSE
