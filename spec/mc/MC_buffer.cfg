SPECIFICATION Spec
CONSTANTS Buf = 4096
 Start = 64
 Targets = {0, 1, 2, 64, 2048, 4091, 4092, 4093, 4094, 4095}
 Laps = 2
VIEW View
INVARIANT InBuffer
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
