SPECIFICATION Spec
CONSTANTS Buf = 4096
 Start = 64
 Targets = {0, 1, 2, 3, 4, 5, 63, 64, 65, 66, 130, 2048, 4090, 4091, 4092, 4093, 4094, 4095}
 Laps = 5
VIEW View
INVARIANT InBuffer
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
