SPECIFICATION SpecL
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- Anonymous
 Conns = {1,2,3,4,5}
 Ids = {"x","y",""}
 Creds = {"anon"}
 FilterSeqs <- cFSx
 TopicSet <- cTSx
 Ops = {"open","fin","rst","half","connect","sub","unsub","pub","ping","disc"}
 OwnId = FALSE
 Out <- cOut
 Listeners = {1,2,3,4}
INVARIANTS TypeOK UniqueOwner NothingLeft Attached EmitStateL
CHECK_DEADLOCK FALSE
