SPECIFICATION Spec
CONSTANTS Users = {"u1","u2","u3"}
 Pws = {"p","q"}
 Files = "full"
 Track = TRUE
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES Local Exact
CHECK_DEADLOCK FALSE
