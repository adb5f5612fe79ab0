SPECIFICATION Spec
CONSTANTS Cap = 3
 Sock = 4
 Packets = {1, 2, 3, 4, 7}
 MaxPackets = 3
 Whole = FALSE
INVARIANTS TypeOK InOrder Progress Pushed
PROPERTY Complete
CHECK_DEADLOCK FALSE
