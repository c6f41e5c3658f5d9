SPECIFICATION Spec
CONSTANT Family = "Tree2"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Flat = FALSE
INVARIANTS KeepsAll OneAtMost SucceedsExactly GivesContent SameWalk
CHECK_DEADLOCK FALSE
