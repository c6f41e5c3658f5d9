SPECIFICATION Spec
CONSTANT Rounds = 3
CONSTANT Whole = TRUE
INVARIANTS ReadsItself SameAgain Installed
PROPERTIES GoesOn
VIEW View
CHECK_DEADLOCK FALSE
