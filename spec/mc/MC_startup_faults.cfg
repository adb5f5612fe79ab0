SPECIFICATION Spec
CONSTANTS Configs <- Faults
 Usable <- cUsable
 ValidPw <- cValid
 Out <- cOut
INVARIANTS TypeOK AllOrNothing Outcome Overrides Independent Emit
PROPERTIES Decided
CHECK_DEADLOCK FALSE
