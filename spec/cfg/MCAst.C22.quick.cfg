SPECIFICATION Spec
CONSTANT Family = "FamQuick"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Kinds = {"flatten"}
INVARIANTS TreeUntouched FlattenWalks
CHECK_DEADLOCK FALSE
