SPECIFICATION Spec
CONSTANT Family = "Few4"
CONSTANT Emit = FALSE
CONSTANT Steps = 5
CONSTANT Flat = FALSE
INVARIANTS KeepsAll OneAtMost SucceedsExactly GivesContent SameWalk
CHECK_DEADLOCK FALSE
