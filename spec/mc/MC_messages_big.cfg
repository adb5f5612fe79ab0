SPECIFICATION Spec
CONSTANTS Pairs = FALSE
 Sizes = {0}
 TLens = {1, 7, 127, 128, 4095, 65535}
 TClasses = {"ascii", "three", "odd", "bom", "levels"}
 Bounds = {126, 127, 128, 129, 130, 4096, 8192, 16383, 16384, 16385, 16386, 65536, 262144}
 Around = {0}
VIEW View
ACTION_CONSTRAINT Emit
PROPERTY HeadOk
CHECK_DEADLOCK FALSE
