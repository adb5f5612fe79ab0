SPECIFICATION Spec
CONSTANTS NoId = NoId
 Match <- Matches
 Admits <- Anonymous
 Conns = {1,2,3}
 Shared = TRUE
 IdOf <- cIdOf
 Program <- cSmall
 MaxSend = 2
 EQ = 2
 CQ = 1
 SO = 1
 Reads = {1,2,3}
 Interrupt = FALSE
 StopNow = TRUE
INVARIANTS TypeOK Refines NothingMissing Agree

CHECK_DEADLOCK FALSE
