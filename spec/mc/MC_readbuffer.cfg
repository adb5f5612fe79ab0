SPECIFICATION Spec
CONSTANTS Cap = 4
 Grow = 2
 Fields = {1, 2, 3, 4, 5, 9}
 MaxSent = 14
 Guard = TRUE
INVARIANTS TypeOK Progress
PROPERTY Delivered
CHECK_DEADLOCK FALSE
