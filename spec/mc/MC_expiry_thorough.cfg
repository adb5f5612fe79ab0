SPECIFICATION XSpec
CONSTANTS Ids = {}
 Intervals = {}
 Times = {}
 Out = ""
 Deltas <- cDeltasT
INVARIANTS Def Boundary XEmit
CHECK_DEADLOCK FALSE
