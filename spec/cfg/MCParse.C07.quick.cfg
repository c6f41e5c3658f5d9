SPECIFICATION Spec
CONSTANT Family = "FamRec"
CONSTANT Emit = TRUE
INVARIANTS TypeOK NoLoopOpen StackBounded IdleOnlyIfNeeded NeverStuck SameMeaning
CHECK_DEADLOCK FALSE
