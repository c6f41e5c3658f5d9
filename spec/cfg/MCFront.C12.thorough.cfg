SPECIFICATION Spec
CONSTANT Family = "FamStruct"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
