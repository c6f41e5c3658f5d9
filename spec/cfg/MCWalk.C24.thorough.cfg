SPECIFICATION Spec
CONSTANT Family = "Flat3"
CONSTANT Emit = TRUE
CONSTANT Steps = 1
CONSTANT Flat = TRUE
INVARIANTS KeepsAll OneAtMost SucceedsExactly GivesContent SameWalk
CHECK_DEADLOCK FALSE
