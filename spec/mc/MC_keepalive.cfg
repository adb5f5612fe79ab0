SPECIFICATION Spec
CONSTANTS Ids <- c3
 Intervals <- cIntervals
 Times <- cTimes
 Out <- cOut
VIEW View
INVARIANTS NeverWithoutInterval OnlyHeld Monotone
PROPERTIES Others
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
