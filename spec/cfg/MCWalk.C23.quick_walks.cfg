SPECIFICATION Spec
CONSTANT Family = "Few4"
CONSTANT Emit = FALSE
CONSTANT Steps = 3
CONSTANT Flat = FALSE
INVARIANTS KeepsAll OneAtMost SucceedsExactly GivesContent SameWalk
CHECK_DEADLOCK FALSE
