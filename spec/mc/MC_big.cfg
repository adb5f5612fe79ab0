SPECIFICATION SpecL
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- Anonymous
 Conns = {1,2,3,4,5,6}
 Ids = {"x","y","z",""}
 Creds = {"anon","wrong","good"}
 FilterSeqs <- cFS
 TopicSet <- cTS
 Ops = {"open","fin","rst","half","connect","sub","unsub","pub","ping","ack","disc","bad"}
 OwnId = FALSE
 Out <- cOut
VIEW View
INVARIANTS TypeOK UniqueOwner NothingLeft EmitState
PROPERTIES StartsEmpty OnlyAdmitted NoEffectWithoutSession OthersUntouched DeliveredExactly RepliesToRequester Idempotent EndsCompletely TakeoverExact TimeChangesNothing
CHECK_DEADLOCK FALSE
