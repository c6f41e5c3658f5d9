SPECIFICATION Spec
CONSTANT Family = "FamQuick"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Kinds = {"prune"}
INVARIANTS TreeUntouched PruneCuts PruneAdds
CHECK_DEADLOCK FALSE
