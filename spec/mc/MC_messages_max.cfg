SPECIFICATION Spec
CONSTANTS Pairs = FALSE
 Sizes = {0}
 TLens = {3}
 TClasses = {"ascii"}
 Bounds = {100000000, 268435453, 268435455}
 Around = {0}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY HeadOk
CHECK_DEADLOCK FALSE
