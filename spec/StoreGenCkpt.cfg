SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MaxInputs = 10
 MaxCrashes = 3
 Modes = {"none", "append"}
