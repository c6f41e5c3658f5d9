SPECIFICATION Spec
CONSTANT Family = "FamModNamesMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
