SPECIFICATION Spec
CONSTANT Rounds = 0
CONSTANT Whole = FALSE
INVARIANTS ReadsItself SameAgain Installed
VIEW View
CHECK_DEADLOCK FALSE
