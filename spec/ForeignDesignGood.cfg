SPECIFICATION Spec
CONSTANTS MaxGroups = 3 MaxRows = 2 MaxReads = 3 Cumulative = TRUE Sequential = FALSE
INVARIANTS Right Frugal
CHECK_DEADLOCK FALSE
