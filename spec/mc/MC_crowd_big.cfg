SPECIFICATION SpecBig
CONSTANTS Phases <- bPhases
 Activities <- bActs
 Ways <- cWays
 MaxLive = 3000
 MayStop = FALSE
 StopAt = 0
 Out <- cOut
INVARIANTS TypeOK EmitBrief
CHECK_DEADLOCK FALSE
