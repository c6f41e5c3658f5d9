SPECIFICATION Spec
CONSTANT Family = "FewFlat4"
CONSTANT Emit = FALSE
CONSTANT Steps = 3
CONSTANT Flat = TRUE
INVARIANTS KeepsAll OneAtMost SucceedsExactly GivesContent SameWalk
CHECK_DEADLOCK FALSE
