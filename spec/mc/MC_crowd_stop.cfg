SPECIFICATION Spec
CONSTANTS Phases <- cPhases
 Activities <- cActs
 Ways <- cWays
 MaxLive = 1
 MayStop = TRUE
 StopAt = 0
 Out <- cOut
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK Gone
PROPERTIES OnlyInterrupt
CHECK_DEADLOCK FALSE
