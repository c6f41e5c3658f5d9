SPECIFICATION Spec
CONSTANT Family = "FamQuick"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Kinds = {"compact"}
INVARIANTS TreeUntouched CompactMerges
CHECK_DEADLOCK FALSE
