SPECIFICATION Spec
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- Anonymous
INVARIANTS UniqueOwner NothingLeft
CONSTRAINT Progress
POSTCONDITION Report
CHECK_DEADLOCK FALSE
