SPECIFICATION Spec
CONSTANT Family = "Fam"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Kinds = {"pass"}
INVARIANTS TreeUntouched PassSplices
CHECK_DEADLOCK FALSE
