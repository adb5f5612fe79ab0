SPECIFICATION Spec
CONSTANTS Pairs = FALSE
 Sizes = {0}
 TLens = {1, 130}
 TClasses = {"ascii"}
 Bounds = {2097151, 2097152, 2097153, 2097154, 5000000}
 Around = {0}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY HeadOk
CHECK_DEADLOCK FALSE
