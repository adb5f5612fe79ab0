SPECIFICATION Spec
CONSTANTS NoId <- cNoId
 Admits <- cAdmits
 Match <- Matches
 MaxMut = 3
 Full = FALSE
VIEW View
INVARIANT Meaning
CHECK_DEADLOCK FALSE
