SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MinOps = 1
 MaxOps = 1
 MaxInputs = 14
 Fails = {"no"}
 Modes = {"none"}
 Ckpt = FALSE
 ManyWorkers = TRUE
