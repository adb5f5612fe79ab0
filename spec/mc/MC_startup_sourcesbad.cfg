SPECIFICATION Spec
CONSTANTS Configs <- SourcesBad
 Usable <- cUsable
 ValidPw <- cValid
 Out <- cOut
INVARIANTS TypeOK AllOrNothing Outcome Overrides Independent Emit
PROPERTIES Decided
CHECK_DEADLOCK FALSE
