SPECIFICATION Spec
CONSTANTS Users = {"u1","u2","u3"}
 Pws = {"p","q"}
 MaxLen = 3
 InitLen = 2
VIEW View
ACTION_CONSTRAINT Emit
PROPERTIES SetExact DelExact BadNone Others
CHECK_DEADLOCK FALSE
