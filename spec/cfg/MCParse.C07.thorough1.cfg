SPECIFICATION Spec
CONSTANT Family = "FamRep"
CONSTANT Emit = TRUE
INVARIANTS TypeOK NoLoopOpen StackBounded IdleOnlyIfNeeded NeverStuck SameMeaning
CHECK_DEADLOCK FALSE
