SPECIFICATION Spec
CONSTANTS Sizes = {}
 FillSizes = {}
 Counts = {}
 Stalls = {0, 1, 7, 8, 9, 15, 16, 17, 28, 29, 30, 31, 32, 33, 34, 35, 36, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257}
 MaxItems = 400
 MaxBytes = 20000000
VIEW View
INVARIANTS Bounded
PROPERTY NothingLost
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
