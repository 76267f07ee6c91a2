SPECIFICATION Spec
CONSTANTS MaxGroups = 3 MaxRows = 3 MaxReads = 4 Cumulative = TRUE Sequential = FALSE
INVARIANTS Right Frugal
CHECK_DEADLOCK FALSE
