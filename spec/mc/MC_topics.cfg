SPECIFICATION Spec
CONSTANTS MaxF = 3 MaxT = 4
 FLevels = {"a", "b", "", "$s", "+", "#", "a+", "#b"}
 TLevels = {"a", "b", "", "$s"}
INVARIANTS Agree Reflexive PlusOne NoMalformed Parent Emit
CHECK_DEADLOCK FALSE
