SPECIFICATION Spec
CONSTANT Family = "FamModNames"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
