SPECIFICATION Spec
CONSTANT Family = "FamQuick"
CONSTANT Emit = FALSE
CONSTANT Steps = 2
CONSTANT Kinds = {"prune"}
INVARIANTS TreeUntouched PruneCuts PruneAdds
CHECK_DEADLOCK FALSE
