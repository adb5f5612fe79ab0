SPECIFICATION Spec
CONSTANTS NoId <- cNoId
 Admits <- cAdmits
 Match <- Matches
 MaxCuts = 2
 MaxLen = 0
INVARIANTS Confluent Waiting Emit
CHECK_DEADLOCK FALSE
