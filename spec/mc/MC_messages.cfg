SPECIFICATION Spec
CONSTANTS Pairs = TRUE
 Sizes = {0, 1, 2, 300}
 TLens = {1, 5, 130}
 TClasses = {"ascii", "two", "four", "odd"}
 Bounds = {127, 128}
 Around = {0}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY HeadOk
CHECK_DEADLOCK FALSE
