SPECIFICATION SpecL
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- Anonymous
 Conns = {1,2}
 Ids = {"x","y"}
 Creds = {"anon"}
 FilterSeqs <- cFS
 TopicSet <- cTS
 Ops = {"open","fin","connect","sub","unsub","pub","ping","disc"}
 OwnId = FALSE
 Out <- cOut
 Listeners = {1,2,3}
VIEW ViewL
ACTION_CONSTRAINT EmitL
INVARIANTS TypeOK UniqueOwner NothingLeft Attached
PROPERTIES StartsEmpty OnlyAdmitted NoEffectWithoutSession OthersUntouched DeliveredExactly RepliesToRequester TakeoverExact
CHECK_DEADLOCK FALSE
