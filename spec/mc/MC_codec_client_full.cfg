SPECIFICATION Spec
CONSTANTS Side = "client"
 Pairs = FALSE
 Set = "full"
 NoId <- cNoId
 Admits <- cAdmits
 Match <- Matches
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES RoundTrip Framed AgreesWithWire
CHECK_DEADLOCK FALSE
