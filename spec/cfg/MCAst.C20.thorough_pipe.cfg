SPECIFICATION Spec
CONSTANT Family = "FamQuick"
CONSTANT Emit = FALSE
CONSTANT Steps = 2
CONSTANT Kinds = {"prune", "pass", "compact", "flatten"}
INVARIANTS TreeUntouched PassSplices
CHECK_DEADLOCK FALSE
