SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 MinOps = 1
 MaxOps = 2
 MaxInputs = 8
 Fails = {"no", "raise", "exit", "kill", "crash", "copycrash", "copyfail", "downfail"}
 Modes = {"none", "append", "overwrite"}
 Ckpt = FALSE
 ManyWorkers = FALSE
