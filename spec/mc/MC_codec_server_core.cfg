SPECIFICATION Spec
CONSTANTS Side = "server"
 Pairs = TRUE
 Set = "core"
 NoId <- cNoId
 Admits <- cAdmits
 Match <- Matches
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES RoundTrip Framed AgreesWithWire
CHECK_DEADLOCK FALSE
