SPECIFICATION Spec
CONSTANTS MaxGroups = 3 MaxRows = 3 MaxReads = 8 Cumulative = TRUE Sequential = TRUE
INVARIANTS Right Frugal
CHECK_DEADLOCK FALSE
