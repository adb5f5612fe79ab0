SPECIFICATION Spec
CONSTANTS Loads <- cLoads
 Ends <- cEnds
 Out <- cOut
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK NothingLeft
CHECK_DEADLOCK FALSE
