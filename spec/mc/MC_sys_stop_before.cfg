SPECIFICATION Spec
CONSTANTS NoId = NoId
 Match <- Matches
 Admits <- Anonymous
 Conns = {1,2}
 Shared = FALSE
 IdOf <- cIdOf
 Program <- cStall
 MaxSend = 6
 EQ = 2
 CQ = 1
 SO = 1
 Reads = {2}
 Interrupt = TRUE
 StopNow = FALSE
INVARIANTS TypeOK Refines NothingMissing Agree
PROPERTIES Stops
CHECK_DEADLOCK FALSE
