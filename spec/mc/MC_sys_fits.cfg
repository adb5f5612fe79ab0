SPECIFICATION Spec
CONSTANTS NoId = NoId
 Match <- Matches
 Admits <- Anonymous
 Conns = {1,2}
 Shared = FALSE
 IdOf <- cIdOf
 Program <- cStall
 MaxSend = 4
 EQ = 2
 CQ = 6
 SO = 1
 Reads = {2}
 Interrupt = TRUE
 StopNow = TRUE
INVARIANTS TypeOK Refines NothingMissing Agree
PROPERTIES Served Processed Stops
CHECK_DEADLOCK FALSE
