SPECIFICATION Spec
CONSTANTS Users = {"u1","u2","u3","u4"}
 Pws = {"p","q"}
 Files = "all"
 Track = FALSE
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Local Exact
CHECK_DEADLOCK FALSE
