SPECIFICATION Spec
CONSTANT Family = "FamQuick"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Kinds = {"pass"}
INVARIANTS TreeUntouched PassSplices
CHECK_DEADLOCK FALSE
