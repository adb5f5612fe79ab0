SPECIFICATION XSpec
CONSTANTS Ids = {}
 Intervals = {}
 Times = {}
 Out = ""
 Deltas <- cDeltas
INVARIANTS Def Boundary XEmit
CHECK_DEADLOCK FALSE
