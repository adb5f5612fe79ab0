SPECIFICATION Spec
CONSTANTS NoId <- cNoId
 Admits <- cAdmits
 Match <- Matches
 MaxCuts = 3
 MaxLen = 48
INVARIANTS Confluent Waiting Emit
CHECK_DEADLOCK FALSE
