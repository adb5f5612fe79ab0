SPECIFICATION Spec
CONSTANTS Ids <- c4
 Intervals <- cIntervals4
 Times <- cTimes4
 Out <- cOut
VIEW View
INVARIANTS NeverWithoutInterval OnlyHeld Monotone
PROPERTIES Others
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
