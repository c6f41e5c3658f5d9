SPECIFICATION Spec
CONSTANT Family = "FamRecMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK NoLoopOpen StackBounded IdleOnlyIfNeeded NeverStuck SameMeaning
CHECK_DEADLOCK FALSE
