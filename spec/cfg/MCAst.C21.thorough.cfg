SPECIFICATION Spec
CONSTANT Family = "Fam"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Kinds = {"compact"}
INVARIANTS TreeUntouched CompactMerges
CHECK_DEADLOCK FALSE
