SPECIFICATION FairSpec
CONSTANT Family = "Few4"
CONSTANT Emit = FALSE
CONSTANT Steps = 5
CONSTANT Flat = FALSE
INVARIANTS KeepsAll OneAtMost SucceedsExactly GivesContent SameWalk
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
