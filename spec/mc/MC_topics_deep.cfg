SPECIFICATION Spec
CONSTANTS MaxF = 4 MaxT = 5
 FLevels = {"a", "b", "", "$s", "+", "#", "a+"}
 TLevels = {"a", "b", "", "$s"}
INVARIANTS Agree Reflexive PlusOne NoMalformed Parent Emit
CHECK_DEADLOCK FALSE
