SPECIFICATION Spec
CONSTANTS Sizes = {0, 90, 3900, 4085, 4095, 60000, 300000, 1500000}
 FillSizes = {700, 3000, 4000, 4090, 9000, 70000}
 Counts = {1, 2, 34, 70}
 Stalls = {0, 31, 32, 33, 34, 70}
 MaxItems = 150
 MaxBytes = 20000000
INVARIANTS Bounded EmitState
PROPERTY NothingLost
CHECK_DEADLOCK FALSE
