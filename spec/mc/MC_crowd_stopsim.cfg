SPECIFICATION Spec
CONSTANTS Phases <- cPhases
 Activities <- cActs
 Ways <- cWays
 MaxLive = 6
 MayStop = TRUE
 StopAt = 0
 Out <- cOut
INVARIANTS TypeOK Gone EmitState
CHECK_DEADLOCK FALSE
