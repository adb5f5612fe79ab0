SPECIFICATION Spec
CONSTANTS Lengths = {5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257}
 Deep = 6
INVARIANTS Agree NoMalformed Emit
CHECK_DEADLOCK FALSE
