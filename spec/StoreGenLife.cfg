SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MinOps = 3
 MaxOps = 5
 MaxInputs = 8
 Fails = {"no", "no", "raise"}
 Modes = {"none", "append", "overwrite"}
 Ckpt = FALSE
 ManyWorkers = FALSE
