SPECIFICATION SpecM
CONSTANTS NoId = NoId
 Match <- cMatch
 Admits <- Anonymous
 Conns <- cConns
 Ids = {}
 Creds = {"anon"}
 FilterSeqs <- cFS
 TopicSet <- cTS
 Ops = {}
 OwnId = FALSE
 Out <- cOut
VIEW View
INVARIANTS TypeOK Unique NothingLeft EmitPh
PROPERTIES DeliveredExactly RepliesToRequester OthersUntouched EndsCompletely
CHECK_DEADLOCK FALSE
