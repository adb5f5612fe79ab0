SPECIFICATION Spec
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- Anonymous
 Conns = {1,2,3}
 Ids = {"x"}
 Creds = {"anon"}
 FilterSeqs <- cFS
 TopicSet <- cTS
 Ops = {"open","fin","connect","sub","unsub","pub","disc"}
 OwnId = TRUE
 Out <- cOut
VIEW View
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK UniqueOwner NothingLeft
PROPERTIES StartsEmpty OnlyAdmitted NoEffectWithoutSession OthersUntouched DeliveredExactly RepliesToRequester Idempotent EndsCompletely TakeoverExact TimeChangesNothing
CHECK_DEADLOCK FALSE
