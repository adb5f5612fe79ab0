SPECIFICATION SpecL
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- Anonymous
 Conns = {1,2,3,4}
 Ids = {"x","y",""}
 Creds = {"anon"}
 FilterSeqs <- cFS
 TopicSet <- cTS
 Ops = {"open","fin","half","connect","sub","unsub","pub","ping","disc","wait"}
 OwnId = FALSE
 Out <- cOut
VIEW View
INVARIANTS TypeOK UniqueOwner NothingLeft EmitState
PROPERTIES StartsEmpty OnlyAdmitted NoEffectWithoutSession OthersUntouched DeliveredExactly RepliesToRequester Idempotent EndsCompletely TakeoverExact TimeChangesNothing
CHECK_DEADLOCK FALSE
