SPECIFICATION Spec
CONSTANT Rounds = 1
CONSTANT Whole = TRUE
INVARIANTS ReadsItself SameAgain Installed
VIEW View
CHECK_DEADLOCK FALSE
