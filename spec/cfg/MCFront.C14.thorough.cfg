SPECIFICATION Spec
CONSTANT Family = "FamLayout"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
