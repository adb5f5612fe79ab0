SPECIFICATION Spec
CONSTANTS Phases <- cPhases
 Activities <- cActs
 Ways = {}
 MaxLive = 300
 MayStop = TRUE
 StopAt = 240
 Out <- cOut
INVARIANTS TypeOK Gone EmitState
CHECK_DEADLOCK FALSE
